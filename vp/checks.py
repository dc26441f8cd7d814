"""One function per property: what is analysed, and against what."""
import os, re
from .core import Broken, sh, CLANG, GXX, STD, HARN, REPO, VERIF, DIS

AI = ('Abstract interpretation of the LLVM IR clang produces for the library (affine/interval/zone domain, exact memory, '
      'trace partitioning). ')

def run(ctx, jobs, rule):
    """jobs: (harness, dict of keyword arguments); all analysed in parallel, each judged"""
    ctx.lib(); ctx.pool_rt(); ctx.engine()
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(8) as ex:
        futs = [ex.submit(ctx.analyse, src, **{k: v for k, v in kw.items() if k != 'soft'}) for src, kw in jobs]
        for (src, kw), f in zip(jobs, futs): settle(ctx, ' '.join((src,) + tuple(kw.get('defs', ()))), f.result if kw.get('soft') else None, None if kw.get('soft') else f.result(), rule)

def settle(ctx, what, get, rec, rule):
    """An analysis that rests on contracts instead of the real lookups is skipped, and that is said, where the code is not built on those lookups"""
    if get:
        try: rec = get()
        except Broken as e: ctx.cov.setdefault('abstract_skipped', []).append('%s: %s' % (what, str(e)[:300])); return
        if rec['stuck']: ctx.cov.setdefault('abstract_skipped', []).append('%s: %s' % (what, rec['stuck'][0].get('stuck') or rec['stuck'][0].get('inconclusive'))); rec['stuck'] = []; rec['wanted'] = set()
        else: ctx.cov.setdefault('abstract_runs', []).append(what)
    ctx.judge(rec, rule)

def simple(*variants, thorough=None, rule, exhaustive=False):
    def fn(ctx):
        jobs = list(variants)
        if ctx.thorough and thorough is not None: jobs = list(thorough)
        run(ctx, [(h, dict(defs=d)) for h, d in jobs], rule)
        ctx.cov['exhaustive'] = exhaustive
    return fn

def rng(name, ns, *more):
    return [(name, ('N=%d' % n,) + more) for n in ns]

def witness(ctx, src, want, rule, what, defs=(), compilers=None, grep=None, count=True):
    """The front ends accept (want) or reject this program."""
    for cc in compilers or (CLANG, GXX):
        r = sh([cc, STD, '-fsyntax-only', '-w', '-I' + HARN, '-I' + os.path.join(REPO, 'include'), *['-D' + d for d in defs], '-x', 'c++', src if os.path.isabs(src) else os.path.join(HARN, src)])
        ctx.cov['programs_given_to_the_front_ends'] = ctx.cov.get('programs_given_to_the_front_ends', 0) + 1
        if (r.returncode == 0) != want:
            err = [l for l in r.stderr.split('\n') if 'error' in l]
            at = next((m.group(0) for l in err for m in [re.search(re.escape(REPO) + r'/[^:]+:\d+', l)] if m), os.path.basename(src))
            ctx.violation(rule, at, '%s: %s' % (what, ('rejected by %s: %s' % (os.path.basename(cc), err[0] if err else r.stderr[:300])) if want else 'accepted by ' + os.path.basename(cc)))

def c32(ctx):
    run(ctx, [J('C32.cpp')], 'run-time component = compile-time component')
    objs = 0
    for f in ctx.lib():
        for m in re.finditer(r'^@(\S*u5e\S*version\S*run_time\S*) = (.*)$', sh([DIS, f, '-o', '-']).stdout, re.M):
            objs += 1
            if not re.search(r'\bconstant\b', m.group(2).split('!')[0]): ctx.violation('run-time version is immutable', 'src/u5e/version.cpp', 'the object %s is not constant' % m.group(1))
    if objs < 3: raise Broken('run-time version objects not found')
    ctx.cov['version_objects'] = objs
    for c in ('major', 'minor', 'patch'):
        for how in (1, 2, 3):
            witness(ctx, 'C32w.cpp', False, 'run-time version is immutable', 'a program that changes %s' % c, ('COMPONENT=' + c, 'HOW=%d' % how))
        witness(ctx, 'C32w.cpp', True, 'run-time version is readable', 'a program that reads %s' % c, ('COMPONENT=' + c, 'HOW=0'))

def c33(ctx):
    witness(ctx, 'C33w.cpp', True, 'codepoint in constant expressions', 'compile-time witnesses')
    if accepted(ctx, 'C33.cpp', 'codepoint = its integer', 'operators on codepoints and integers'): run(ctx, [J('C33.cpp')], 'codepoint = its integer')

def accepted(ctx, src, rule, what):
    """The program uses what the property promises: that it does not compile is a violation. False: it does not."""
    n = len(ctx.viol); witness(ctx, src, True, rule, what)
    return len(ctx.viol) == n

def c34(ctx):
    rule = 'algorithm visits the codepoints of the text'
    ok = accepted(ctx, 'C34w.cpp', 'codepoint iterators meet the requirements of standard algorithms', 'compile-time witnesses') and accepted(ctx, 'C34.cpp', rule, 'standard algorithms over codepoint iterators')
    if ok: run(ctx, [J('C34.cpp', 'N=%d' % (4 if ctx.thorough else 3), slices=13, slice_by='algorithm'), J('C34.cpp', 'MANY')], rule)

def J(src, *defs, **kw): return (src, dict(kw, defs=defs))
def jobs(quick, thorough=None, rule=''):
    def fn(ctx): run(ctx, thorough if ctx.thorough and thorough is not None else quick, rule)
    return fn

def chains(src, wide=18, deep=((4, 8), (5, 5)), lens=6):
    """Longer texts: the class lookup by contract, every sequence of classes; and long texts of patterns through the real lookup"""
    return [J(src, 'ABSTRACT', 'N=3', 'CLASSES=%d' % wide, slices=wide, soft=True)] + [J(src, 'ABSTRACT', 'N=%d' % n, 'CLASSES=%d' % c, slices=c, soft=True) for n, c in deep] + [J(src, 'LONG', 'LENS=%d' % lens, slices=8, slice_by='pattern')]
def any_def():
    """every codepoint, by runs of one break class"""
    from . import ucd
    out = []; at = 0
    for a, b, n in ucd.GCBR:
        if a > at: out.append((0, at, a - 1))
        out.append((ucd.ENUM[n], a, b)); at = b + 1
    if at < 0x110000: out.append((0, at, 0x10FFFF))
    return 'ANY=' + ','.join('{%d,%d,%d}' % x for x in out)
def anywhere(src, around=31, *defs): return [J(src, any_def(), 'AROUND=%d' % around, *defs, slices=48, slice_by='class')]
CHECKS = {}
def reg(pid, fn, rule, level='other'):
    CHECKS[pid] = (fn, level, rule)

reg('C01', simple(('C01.cpp', ()), rule='value read = encoded codepoint; no access outside its octets', exhaustive=True),
    AI + 'The codepoint is a variable over 0..0x10FFFF, its encoding lies in a block of exactly its size, the iterator stands on each octet; '
    'obligations: the value read equals the variable, no access leaves the block.')
reg('C02', simple(('C02.cpp', ()), rule='octets stored = shortest encoding; nothing else changed', exhaustive=True),
    AI + 'The codepoint written is a variable over 0..0x10FFFF, the octets around it are unknown; obligations: the octets stored are the encoding computed '
    'by arithmetic, every other octet keeps its value, the iterator denotes the codepoint and steps past it.')
reg('C03', jobs([J('C03.cpp'), J('C03.cpp', 'LONG', slices=9, slice_by='pattern')], thorough=[J('C03.cpp', 'N=%d' % n) for n in (1, 2, 3)] + [J('C03.cpp', 'LONG', slices=9, slice_by='pattern')], rule='octets appended = concatenated encodings'),
    AI + 'Ranges of up to 2 (thorough: 3) unknown codepoints over several storages and prior contents; of 31 to 1025 codepoints whose encoded lengths follow patterns, twice; obligations: size and every octet of the result.')
reg('C04', simple(('C04.cpp', ()), rule='step lands on the first octet of the neighbour', exhaustive=True),
    AI + 'Texts of unknown codepoints of every length, every octet of the middle codepoint as position, every iterator kind and step operator.')
reg('C05', simple(('C05.cpp', ()), rule='== exactly on the same codepoint', exhaustive=True),
    AI + 'Texts of unknown codepoints, every pair of octet positions, every pair of iterator kinds, and positions up to 2^32 octets apart; obligations: == agrees with the codepoints of the positions, != negates it, operands unmoved.')
reg('C06', jobs([J('C06.cpp', 'WALK_CP', 'N=3'), J('C06.cpp', 'N=2', slices=8)] + chains('C06.cpp') + anywhere('C06.cpp', 12), thorough=[J('C06.cpp', 'WALK_CP', 'N=4'), J('C06.cpp', 'N=2', slices=8), J('C06.cpp', 'N=3', 'CLASSES=12', slices=12)] + chains('C06.cpp', deep=((4, 18), (5, 10), (6, 6)), lens=13) + anywhere('C06.cpp', 31), rule='every access inside the text; steps = units'),
    AI + 'Walks over exactly sized blocks of unknown codepoints (by codepoint) and of unknown codepoints of every break class (by grapheme).')
def sparse(src, ns, *defs): return [J(src, 'SPARSE', 'LO=%d' % n, 'N=%d' % n, *defs, slices=8, slice_by='first start') for n in ns]
reg('C07', jobs([J('C07.cpp', 'CHECKING', 'N=5')] + sparse('C07.cpp', (6, 8, 9), 'CHECKING') + [J('C07.cpp', 'CHECKING', 'FAR', 'FARS=6', slices=6, slice_by='octets')], thorough=[J('C07.cpp', 'CHECKING', 'N=6')] + sparse('C07.cpp', range(7, 15), 'CHECKING') + [J('C07.cpp', 'CHECKING', 'FAR', slices=22, slice_by='octets')], rule='check = edges complete'),
    AI + 'All octets unknown, every length up to 5 (thorough 6); longer texts, past the reach of any start octet, with at most two start octets among the last eight; texts of lengths around 16, 32, 64 up to 2^32, unknown at both edges and at a place in between.')
reg('C08', jobs([J('C07.cpp', 'N=4')] + sparse('C07.cpp', (5, 8)) + [J('C07.cpp', 'FAR', 'FARS=6', slices=6, slice_by='octets')], thorough=[J('C07.cpp', 'N=5')] + sparse('C07.cpp', range(6, 13)) + [J('C07.cpp', 'FAR', slices=22, slice_by='octets')], rule='octets after enforce = reference repair'),
    AI + 'As C07, on a writable block; the repaired text is compared octet by octet with the reference repair and checked again.')
reg('C10', jobs([J('C10.cpp')], rule='units of the text = units of the native string'),
    AI + 'Native strings of unknown units, of the lengths around the small-string limit, under every way to copy and assign.')
reg('C11', jobs([J('C11.cpp', 'N=2'), J('C11.cpp', 'LONG', 'LONGS=3', slices=9, slice_by='pattern')], thorough=[J('C11.cpp', 'N=3'), J('C11.cpp', 'LONG', slices=9, slice_by='pattern')], rule='units appended = units of the range'),
    AI + 'Sources of unknown codepoints, every pair of octet positions, several prior contents; long sources and prior contents, twice.')
reg('C12', jobs([J('C12.cpp', 'N=2', 'VIEW', slices=25), J('C12.cpp', 'N=2', 'STRING', 'CLASSES=12', slices=12)] + chains('C12.cpp', 8, ((4, 4),), 2) + anywhere('C12.cpp', 12, 'VIEW'), thorough=[J('C12.cpp', 'N=2', slices=25), J('C12.cpp', 'N=3', 'VIEW', 'CLASSES=12', slices=12)] + chains('C12.cpp', 18, ((4, 6), (5, 4)), 6) + anywhere('C12.cpp', 31, 'VIEW'), rule='units appended = units of whole graphemes'),
    AI + 'Sources of unknown codepoints of every break class, every pair of grapheme positions.')
reg('C19', jobs([J('C19.cpp', 'N=1', slices=8), J('C19.cpp', 'N=2', slices=25)] + chains('C19.cpp') + anywhere('C19.cpp', 31), thorough=[J('C19.cpp', 'N=2', slices=25), J('C19.cpp', 'N=3', 'CLASSES=12', slices=12)] + chains('C19.cpp', deep=((4, 18), (5, 10), (6, 6)), lens=13) + anywhere('C19.cpp', 31), rule='graphemes = parts between boundaries'),
    AI + 'Texts of unknown codepoints of every pair of break classes; obligations: edges of each grapheme the iteration yields.')
reg('C20', jobs([J('C20.cpp', 'N=1', slices=8), J('C20.cpp', 'N=2', slices=25)] + chains('C20.cpp') + anywhere('C20.cpp', 31), thorough=[J('C20.cpp', 'N=2', slices=25), J('C20.cpp', 'N=3', slices=25), J('C20.cpp', 'N=4', 'CLASSES=12', slices=12)] + chains('C20.cpp', deep=((4, 18), (5, 10), (6, 6)), lens=13) + anywhere('C20.cpp', 31), rule='grapheme sought = part holding the position'),
    AI + 'Every position of texts of unknown codepoints of every pair of break classes.')
reg('C21', jobs([J('C21.cpp', 'N=2', slices=25)] + chains('C21.cpp', 9, ((4, 4),), 4) + [J('C21.cpp', 'FAR')] + anywhere('C21.cpp', 10), thorough=[J('C21.cpp', 'N=2', slices=25), J('C21.cpp', 'N=3', 'CLASSES=12', slices=12)] + chains('C21.cpp', 18, ((4, 8), (5, 5)), 13) + [J('C21.cpp', 'FAR')] + anywhere('C21.cpp', 31), rule='== of grapheme iterators = same grapheme'),
    AI + 'Every pair of grapheme positions, and of a grapheme and a codepoint position.')
reg('C22', jobs([J('C22.cpp', 'N=4'), J('C22.cpp', 'LONG', slices=11, slice_by='length')], thorough=[J('C22.cpp', 'N=5'), J('C22.cpp', 'LONG', slices=11, slice_by='length')], rule='one call per codepoint, in order, result the sum'),
    AI + 'Unknown codepoints, unknown results of the operation; ranges of up to 1025 codepoints, results of either sign up to the limits of int.')
reg('C32', c32, AI + 'The run-time version objects of the library are compared with the compile-time constants, are constants in the IR, and a program that assigns to them must be rejected.')
reg('C33', c33, AI + 'Two unknown integers through every operator; and static_assert witnesses both compilers must accept.')
reg('C34', c34,
    AI + 'std algorithms instantiated over the library iterators, texts of unknown codepoints; uses of dead memory are violations.')
reg('C36', jobs([J('C36.cpp', 'N=1', 'ANY', slices=48, slice_by='part'), J('C36.cpp', 'N=2', 'KINDS=18', slices=48, slice_by='part')], thorough=[J('C36.cpp', 'N=1', 'ANY', slices=48, slice_by='part'), J('C36.cpp', 'N=2', slices=48, slice_by='part'), J('C36.cpp', 'N=3', 'KINDS=17', slices=48, slice_by='part')], rule='same codepoints, same graphemes and normalizations'),
    AI + 'Relational: the same unknown codepoints, held in seven storages of both encodings, through grapheme iteration and the four forms into outputs of both encodings; obligations: equal grapheme lengths, equal codepoints, equal counts.')
reg('C37', jobs([J('C37.cpp', 'N=1', 'ANY', 'FEW', 'INPUTS=2', slices=48, slice_by='part'), J('C37.cpp', 'N=1', slices=48, slice_by='part'), J('C37.cpp', 'N=2', 'FEW', 'KINDS=16', slices=48, slice_by='part'), J('C37.cpp', 'N=1', 'LONGPRIOR', 'KINDS=16', slices=48, slice_by='part')],
    thorough=[J('C37.cpp', 'N=1', 'ANY', slices=48, slice_by='part'), J('C37.cpp', 'N=2', slices=48, slice_by='part'), J('C37.cpp', 'N=3', 'FEW', 'KINDS=9', slices=48, slice_by='part'), J('C37.cpp', 'N=1', 'LONGPRIOR', slices=48, slice_by='part')], rule='normalization appends, counts, and leaves its input alone'),
    AI + 'Every form over inputs and outputs of both encodings and storages, unknown prior content of lengths around the capacity of a small string and beyond; the input block may not be written; obligations: prior content kept, appended content independent of it, the count that of the codepoints appended.')
reg('C38', jobs([J('C38.cpp', 'N=3')] + sparse('C38.cpp', (5,)) + sparse('C38.cpp', (9,), 'ONLY_CHECKED'), thorough=[J('C38.cpp', 'N=4')] + sparse('C38.cpp', (5, 6, 7, 8)) + sparse('C38.cpp', (9, 10, 12), 'ONLY_CHECKED'),
    rule='steps from accepted text stay inside'),
    AI + 'All octets unknown; after check or enforce, one step from every position; every access must stay in the block.')

reg('C40', jobs([J('C40.cpp', slices=27, slice_by='part')], rule='any int is stored, read and normalized without leaving the text'),
    AI + 'The codepoint is any int: written in place, appended, split in graphemes and normalized; obligations: at most six octets, values that fit are read back, no access leaves a block, text around it unchanged.')
reg('C41', jobs([J('C41.cpp', 'N=1', slices=8), J('C41.cpp', 'N=2', slices=25), J('C41.cpp', 'LONG', 'LENS=3', slices=8, slice_by='pattern')], thorough=[J('C41.cpp', 'N=1', slices=8), J('C41.cpp', 'N=2', slices=25), J('C41.cpp', 'N=3', 'CLASSES=12', slices=12), J('C41.cpp', 'LONG', slices=8, slice_by='pattern')] + anywhere('C41.cpp', 12), rule='a grapheme denotes the same part of the text for as long as it lives'),
    AI + 'Graphemes and iterators copied, assigned, kept and stepped over texts of unknown codepoints of every pair of break classes; obligations: the edges and codepoints each of them denotes before and after.')
reg('C42', jobs([J('C42.cpp', slices=27, slice_by='part'), J('C42.cpp', 'TEXTS', 'N=2', slices=25), J('C42.cpp', 'OWNED', 'N=2', slices=25), J('C42.cpp', 'TEXTS', 'LONG', 'LENS=3', slices=8, slice_by='pattern')],
    thorough=[J('C42.cpp', slices=27, slice_by='part'), J('C42.cpp', 'TEXTS', 'N=3', 'CLASSES=12', slices=12), J('C42.cpp', 'TEXTS', 'N=2', slices=25), J('C42.cpp', 'OWNED', 'N=2', slices=25), J('C42.cpp', 'TEXTS', 'LONG', slices=8, slice_by='pattern'), J('C42.cpp', 'OWNED', 'LONG', slices=8, slice_by='pattern')], rule='reading reaches no allocation, exception or termination'),
    AI + 'Effect rule along every path: from the first read to the last no call to an allocation function, no throw, no termination is reached; over any int, any octets, any codepoints of every pair of classes, and long texts.')

LONGER = ('--max-steps=1000000000',)
reg('C43', jobs([J('C43.cpp', slices=48, slice_by='operation', args=LONGER)], thorough=[J('C43.cpp', slices=48, slice_by='operation', args=LONGER), J('C43.cpp', 'BASE=512', slices=48, slice_by='operation', args=LONGER)], rule='cost in proportion to the text'),
    AI + 'The instructions along the path of each operation are counted (copies by the octet) on texts of n, 2n and 4n graphemes of six patterns, n = 128 (thorough: 512): twice the text costs at most two and a half times as much; one step costs the same at every quarter of a text of 64 and of 1024 graphemes.')
reg('C44', jobs([J('C44.cpp', 'N=1', 'KINDS=6', slices=48, slice_by='part')], thorough=[J('C44.cpp', 'N=1', slices=48, slice_by='part'), J('C44.cpp', 'N=2', 'KINDS=7', slices=48, slice_by='part')], rule='what failed leaves the output as it was and releases its memory'),
    AI + 'Each allocation on the path succeeds or fails, exceptions unwind along the landing pads of the IR, an operation of the caller throws at any call; obligations: the output is its content from before and a beginning of the whole result, nothing allocated stays, the next try gives the whole result.')

SHORT = ('--max-steps=5000000',) # of a few octets: what takes longer does not end
reg('C45', jobs([J('C45.cpp', 'N=4', slices=20, slice_by='first', args=SHORT), J('C45.cpp', 'N=3', 'KINDS=16', slices=48, slice_by='first', args=SHORT), J('C45.cpp', 'N=4', 'KINDS=9', slices=48, slice_by='first', args=SHORT)],
    thorough=[J('C45.cpp', 'N=5', slices=24, slice_by='first', args=SHORT), J('C45.cpp', 'N=4', 'KINDS=16', slices=48, slice_by='first', args=SHORT), J('C45.cpp', 'N=5', 'KINDS=8', slices=48, slice_by='first', args=SHORT)], rule='processing an accepted text ends, inside of it'),
    AI + 'All octets unknown, and texts of octets of sixteen kinds, those the bounds check accepts or enforcement repaired: walked both ways, read and stepped at every octet, split in graphemes, normalized, appended; obligations: every access inside the text, every walk at most one step per octet, every loop ends.')


# ------------------------------------------------------------------ results compared with the database
from . import leaves as L, ucd
def uplus(x): return 'U+%04X' % x if x >= 0 else str(x)
class Compare:
    """Receives leaves; each is compared at every point that decides it."""
    def __init__(self, ctx, brk, oracle, rule, at, describe, domain=None):
        self.ctx, self.brk, self.oracle, self.rule, self.at, self.describe = ctx, brk, oracle, rule, at, describe
        self.n = self.pts = 0; self.area = {}; self.bad = 0; self.relational = False; self.lock = __import__('threading').Lock(); self.samples = []
    def __call__(self, d):
        with self.lock:
            lf = L.Leaf(d); self.n += 1; self.relational |= bool(lf.diffs); self.area[lf.entry] = self.area.get(lf.entry, 0) + lf.count()
            for env in L.points(lf, self.brk):
                self.pts += 1; got = lf.at(env); bad = self.oracle(got)
                if bad:
                    self.bad += 1
                    if lf.imprecise: self.ctx.inconclusive.append('not precise: ' + self.describe(got)); break
                    if self.bad <= 40: self.ctx.violation(self.rule, self.at(got) if callable(self.at) else self.at, '%s; %s' % (self.describe(got), bad))
                    break
                if len(self.samples) < 12 and self.n % 397 == 1: self.samples.append(self.describe(got)); 
    def done(self, key, area=None, sample=True):
        c = self.ctx.cov
        c['results_compared'] = c.get('results_compared', 0) + self.pts; c['result_boxes'] = c.get('result_boxes', 0) + self.n
        c['differing'] = c.get('differing', 0) + self.bad
        if not self.n: raise Broken('no result was produced for ' + key)
        if area is not None:
            for e, a in self.area.items():
                if a != area and not self.relational: raise Broken('%s: the results cover %d inputs of %d' % (e, a, area))
        c.setdefault('samples', []); c['samples'] += self.samples[:6]

def table(defs, brk, oracle, name, file, describe, area, values):
    def fn(ctx):
        cmp = Compare(ctx, brk(), oracle, '%s = Unicode 9.0 database' % name, lambda got: row(file, got[0]), describe)
        ctx.harness('tables.cpp', defs=defs, emits=cmp, rule=name, slices=7, slice_by='part')
        if not ctx.viol and not ctx.inconclusive: cmp.done(name, area)
        ctx.cov['exhaustive'] = True; ctx.units.append(file); ctx.cov['inputs_decided'] = area
    return fn
def row(file, cp):
    """file:line of the row of a data file that names this value, for the report"""
    try:
        for i, l in enumerate(open(os.path.join(REPO, file)), 1):
            m = re.match(r'\s*\{\s*(?:codepoint\()?\s*(0x[0-9a-fA-F]+|\d+)', l)
            if m and int(m.group(1), 0) == cp: return '%s:%d' % (file, i)
    except OSError: pass
    return file
P = 'src/u5e/props/'
reg('C13', table(('GCB',), L.gcb_breaks, lambda g: None if g[1] == ucd.gcb(g[0]) else 'the database says %s' % ucd.NAMES[ucd.gcb(g[0])], 'grapheme_cluster_break', P + 'grapheme_cluster_break_data.hpp',
    lambda g: '%s has class %s' % (uplus(g[0]), ucd.NAMES[g[1]] if 0 <= g[1] < 18 else g[1]), 1 << 32, 1),
    AI + 'The lookup is interpreted on a key that stands for all 2^32 ints; the resulting partition is compared with GraphemeBreakProperty 9.0 (frozen copy) interval by interval.')
reg('C14', table(('CCC',), L.ccc_breaks, lambda g: None if g[1] == ucd.ccc(g[0]) else 'the database says %d' % ucd.ccc(g[0]), 'canonical_combining_class', P + 'canonical_combining_class_data.hpp',
    lambda g: '%s has combining class %d' % (uplus(g[0]), g[1]), 1 << 32, 1),
    AI + 'As C13, against the combining classes of UnicodeData 9.0 (frozen copy).')
def seq(l): return ' '.join(uplus(x) for x in l)
def decomposition(compat):
    def oracle(g):
        want = ucd.full(g[0], compat)
        if g[1] == len(want) and g[2:] == want: return None
        return 'the database says %s' % seq(want)
    return oracle
for pid, compat, n in (('C15', False, 'canonical_decomposition'), ('C16', True, 'compatibility_and_canonical_decomposition')):
    reg(pid, table(('COMPAT',) if compat else ('DECOMP',), L.inert_breaks, decomposition(compat), n, P + n + '_mapping_data.hpp',
        lambda g: '%s decomposes to %s (%d)' % (uplus(g[0]), seq(g[2:]), g[1]), 2 << 32, 1),
        AI + 'The public decomposition is interpreted on a codepoint that stands for all 2^32 ints, with and without prior output; the resulting partition is compared with the full decomposition derived from UnicodeData 9.0 (frozen copy).')
def c17(ctx):
    found = {}
    def oracle(g):
        a, b, ok, r = g
        want = ucd.compose2(a, b)
        if ok: found[(a, b)] = r
        if ok and want is None: return 'Unicode defines no composite'
        if not ok and want is not None: return 'Unicode composes %s' % uplus(want)
        if ok and r != want: return 'Unicode composes %s' % uplus(want)
    class Pairs(Compare):
        def __call__(self, d):
            lf = L.Leaf(d)
            if lf.forms[2] == (0, ()):  # failures: no composite may lie in the box
                with self.lock:
                    self.n += 1; self.relational |= bool(lf.diffs); self.area[lf.entry] = self.area.get(lf.entry, 0) + lf.count(); self.boxes.append(lf)
            else: super().__call__(d)
    cmp = Pairs(ctx, L.Breaks([]), oracle, 'composition lookup = Unicode 9.0 primary composites', lambda g: row(P + 'canonical_composition_mapping_data.hpp', g[0]),
                lambda g: '%s + %s gives %s' % (uplus(g[0]), uplus(g[1]), uplus(g[3]) if g[2] else 'nothing')); cmp.boxes = []
    # successes over boxes are compared at every point
    cmp.brk = L.Breaks(list(range(0x1100, 0x1200)) + list(range(0xAC00, 0xD7A5)) + [x for k in ucd.COMP for x in (k[0], k[0] + 1, k[1], k[1] + 1)])
    ctx.harness('tables.cpp', defs=('COMPOSE',), emits=cmp, rule='composition lookup', slices=7, slice_by='part')
    want = {k: v for k, v in ucd.COMP.items()}
    for l in range(19):
        for v in range(21): want[(0x1100 + l, 0x1161 + v)] = 0xAC00 + (l * 21 + v) * 28
    for s in range(0xAC00, 0xD7A4, 28):
        for t in range(1, 28): want[(s, 0x11A7 + t)] = s + t
    missing = [k for k in want if k not in found]
    for k in sorted(missing)[:20]: ctx.violation('composition lookup = Unicode 9.0 primary composites', row(P + 'canonical_composition_mapping_data.hpp', k[0]), '%s + %s gives nothing; Unicode composes %s' % (uplus(k[0]), uplus(k[1]), uplus(want[k])))
    if not ctx.viol and not ctx.inconclusive: cmp.done('composition', 1 << 64)
    ctx.cov['composites_found'] = len(found); ctx.cov['exhaustive'] = True; ctx.cov['inputs_decided'] = '2^64 pairs'
reg('C17', c17, AI + 'The lookup is interpreted on a pair that stands for all 2^64 pairs of ints; the pairs on which it succeeds are exactly the primary composites derived from UnicodeData and CompositionExclusions 9.0 (frozen copy) plus algorithmic Hangul.')

def c18(ctx):
    brk = L.gcb_breaks()
    def oracle(g):
        want = ucd.boundary(ucd.gcb(g[0]), ucd.gcb(g[1]))
        if bool(g[2]) != want: return 'the rules for %s, %s say %s' % (ucd.NAMES[ucd.gcb(g[0])], ucd.NAMES[ucd.gcb(g[1])], 'boundary' if want else 'no boundary')
    cmp = Compare(ctx, brk, oracle, 'boundary between two codepoints = GB3-GB13', 'include/u5e/basic_grapheme_iterator.hpp',
                  lambda g: '%s %s between %s and %s' % ('boundary' if g[2] else 'no', '' if g[2] else 'boundary', uplus(g[0]), uplus(g[1])))
    run_one = lambda e, lo, hi: ctx.harness('C18.cpp', [e], defs=('ALO=%d' % lo, 'AHI=%d' % hi), emits=cmp, rule='boundary', slices=1)
    from concurrent.futures import ThreadPoolExecutor
    ctx.lib(); ctx.pool_rt(); ctx.engine()
    with ThreadPoolExecutor(8) as ex:
        if ctx.thorough:
            cuts = [ucd.GCBR[i][0] for i in range(0, len(ucd.GCBR), 24)]; cuts = [0] + [c for c in cuts if c] + [ucd.NCP]
            fs = [ex.submit(run_one, 'check_all', a, b - 1) for a, b in zip(cuts, cuts[1:])]
        else:
            fs = [ex.submit(ctx.harness, 'C18.cpp', [e], defs=('ALO=0', 'AHI=0x10FFFF'), emits=cmp, rule='boundary', slices=9) for e in ('check_first', 'check_second')]
        for f in fs: f.result()
    if not ctx.viol and not ctx.inconclusive: cmp.done('pairs')
    ctx.cov['exhaustive'] = ctx.thorough
reg('C18', c18, AI + 'Forward iteration and seeking are interpreted on a pair of codepoints: one of each of the 18 classes against all codepoints in either position (thorough: all pairs of codepoints); the resulting boundaries are compared with GB3-GB13 over the frozen Unicode 9.0 classes.')

def runs(xs):
    out = []
    for x in sorted(xs):
        if out and out[-1][1] == x - 1: out[-1][1] = x
        else: out.append([x, x])
    return out
def brace(rs): return ','.join('{0x%X,0x%X}' % (a, b) for a, b in rs)
V_, T_ = (0x1161, 0x1175), (0x11A8, 0x11C2)
def seconds_all():
    """every codepoint that is the second of a composite, Hangul, a mark of every combining class, some that decompose to marks, inert ones"""
    s = {k[1] for k in ucd.COMP}; seen = {}
    for c in sorted(ucd.CCC): seen.setdefault(ucd.CCC[c], c)
    s |= set(seen.values()) | {x for x in ucd.RAW if ucd.ccc(x) or ucd.ccc(ucd.full(x, False)[0])}
    s = {x for x in s if not (0x1161 <= x <= 0x1175 or 0x11A8 <= x <= 0x11C2)}
    return [(x, x) for x in sorted(s)] + [V_, T_, (0x1100, 0x1112), (0x30, 0x39), (0xAC00, 0xAC00), (0xAC01, 0xAC1B), (0xFB01, 0xFB01), (0x1E9B, 0x1E9B), (0xF900, 0xF900), (0x2126, 0x2126)]
def seconds_some():
    """the seconds of composites, Hangul, a few marks and an inert run"""
    s = {k[1] for k in ucd.COMP} | {0x301, 0x327, 0x334, 0x3099, 0x93C, 0x5B0}
    return [(x, x) for x in sorted(s) if not 0x1161 <= x <= 0x11C2] + [V_, T_, (0x30, 0x39), (0xAC00, 0xAC00)]
SMALL = [(0x44, 0x44), (0x1E0A, 0x1E0A), (0x307, 0x307), (0x323, 0x323), (0x301, 0x301), (0x345, 0x345), (0x327, 0x327), (0x1E9B, 0x1E9B), (0x1100, 0x1112), V_, T_, (0xAC00, 0xAC00),
         (0xAC01, 0xAC1B), (0x9C7, 0x9C7), (0x9BE, 0x9BE), (0xFB01, 0xFB01), (0x344, 0x344), (0xF73, 0xF73), (0x958, 0x958), (0x2126, 0x2126), (0x30, 0x39), (0x5B0, 0x5B0), (0x3B9, 0x3B9), (0x1F70, 0x1F70)]
NARROW = [(a, min(a + 1, b)) for a, b in SMALL]
CORE = [NARROW[i] for i in (0, 1, 2, 3, 5, 6, 8, 9, 10, 11, 13, 14)]
# codepoints before and after any other one
CONTEXTS = [((0x61,), ()), ((0xFB01,), ()), ((0xC1,), ()), ((0x1E69,), ()), ((0x301,), ()), ((0x1112,), ()), ((0x1112, 0x1175), ()), ((0xAC00,), ()), ((0xAC01,), ()), ((0x61, 0x301), ()), ((0x61, 0x323), ()), ((0x1D15E,), ()),
            ((0x61,), (0x301,)), ((0x61,), (0x323,)), ((0x73, 0x307), (0x323,)), ((0x1100,), (0x11A8,)), ((), (0x301, 0x323)), ((), (0xFE0F,)), ((0x61,), (0x62,)), ((0x61, 0x301, 0x62), ()), ((), (0x61, 0x301)), ((0xFDFA,), ()), ((0x200D,), (0x200D,)), ((0x41, 0x42, 0x43), (0x44,))]
def contexts(cs): return 'CONTEXTS=' + ','.join('{%d,%d,%s}' % (len(a), len(b), ','.join(map(hex, a + b))) for a, b in cs)
FORMS = {'C25': ('d', 'D'), 'C26': ('c', 'C'), 'C27': ('kd', 'KD'), 'C28': ('kc', 'KC')}
def form(pid):
    low, F = FORMS[pid]
    def fn(ctx):
        def oracle(g):
            n = g[0]; x = g[1:1 + n]; want = ucd.nf(F, x)
            if g[1 + n] == len(want) and g[2 + n:] == want: return None
            return 'Unicode 9.0 says %s (%d)' % (seq(want), len(want))
        describe = lambda g: 'form %s of %s is %s (%d)' % (F, seq(g[1:1 + g[0]]), seq(g[2 + g[0]:]), g[1 + g[0]])
        rule = 'normalization form %s of a grapheme = Unicode 9.0' % F
        mk = lambda: Compare(ctx, L.inert_breaks(), oracle, rule, 'include/u5e/normalization_form_%s.hpp' % low, describe)
        f = 'FORM=normalization_form_' + low
        sec = seconds_all() if ctx.thorough else seconds_some()
        plan = [('single codepoints', dict(defs=(f, 'SINGLE'), slices=27, slice_by='part'))]
        plan += [('pairs', dict(defs=(f, 'SECONDS=' + brace(sec)), slices=min(len(sec), 64), slice_by='second'))]
        plan += [('graphemes of %d from %d kinds' % (n, len(s)), dict(defs=(f, 'SMALL=' + brace(s), 'N=%d' % n), slices=len(s))) for n, s in
                 (((2, SMALL), (3, NARROW), (4, CORE)) if ctx.thorough else ((2, SMALL), (3, CORE)))]
        cx = CONTEXTS if ctx.thorough else CONTEXTS[:16]
        plan += [('any codepoint in a context', dict(defs=(f, contexts(cx)), slices=len(cx), slice_by='context'))]
        plan += [('long graphemes', dict(defs=(f, 'LONG'), slices=13, slice_by='pattern'))]
        ctx.lib(); ctx.pool_rt(); ctx.engine()
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(8) as ex:
            cs = [(what, mk(), kw) for what, kw in plan]
            fs = [ex.submit(ctx.harness, 'forms.cpp', emits=c, rule=rule, **kw) for what, c, kw in cs]
            for x in fs: x.result()
        abstract(ctx, rule, 'DECOMPOSITIONS=%d' % (1 + sorted(FORMS).index(pid)), *(('N=3', 'MAXM=5') if ctx.thorough else ('N=2', 'MAXM=4')), slices=3, slice_by='decomposition')
        if not ctx.viol and not ctx.inconclusive:
            for what, c, kw in cs: c.done(what); ctx.cov[what] = c.n
        ctx.cov['exhaustive'] = False; ctx.cov['seconds_of_pairs'] = len(sec)
    return fn
for pid in FORMS:
    reg(pid, form(pid), AI + 'The public function is interpreted on graphemes of one codepoint (any int), of two (any codepoint before codepoints that compose, reorder or decompose), '
        'and on all combinations of up to 3 (thorough: 4) of chosen kinds; the resulting partition is compared with the form computed by an independent implementation over the frozen Unicode 9.0 data.')

def abstract(ctx, rule, *defs, **kw):
    """The algorithms against the contracts of the lookups; skipped (and said so) where the code is no longer built on those lookups"""
    settle(ctx, 'abstract.cpp ' + ' '.join(defs), lambda: ctx.analyse('abstract.cpp', defs=defs, **kw), None, rule)

def c23(ctx):
    rule = 'canonical order = stable sort of runs'
    abstract(ctx, rule, 'ORDER', 'N=%d' % (7 if ctx.thorough else 6))
    seen = {}
    for c in sorted(ucd.CCC):
        if ucd.full(c, False) == [c]: seen.setdefault(ucd.CCC[c], c)
    kinds = [(c, c) for c in sorted(seen.values())] + [(0x41, 0x41)]
    few = [(x, x) for x in (0x41, 0x301, 0x323, 0x345, 0x5B0, 0x302, 0x316, 0x94D)]
    plan = [(('SMALL=' + brace(kinds), 'N=2'), 8), (('SMALL=' + brace(few), 'N=3'), 4), (('LONG',), 13)] + ([(('SMALL=' + brace(few), 'N=5'), 8)] if ctx.thorough else [])
    def oracle(g):
        x = g[1:1 + g[0]]; want = ucd.order(x)
        if any(ucd.full(y, False) != [y] for y in x): return None
        return None if g[2 + g[0]:] == want else 'in canonical order it is %s' % seq(want)
    cmp = Compare(ctx, L.inert_breaks(), oracle, rule, 'include/u5e/canonical_combining_order.hpp', lambda g: '%s becomes %s' % (seq(g[1:1 + g[0]]), seq(g[2 + g[0]:])))
    for d, n in plan: ctx.harness('forms.cpp', defs=('FORM=normalization_form_d',) + d, emits=cmp, rule=rule, slices=n, **(dict(slice_by='pattern') if d == ('LONG',) else {}))
    if not ctx.viol and not ctx.inconclusive: cmp.done('orders')
    ctx.cov['combining_classes_used'] = len(seen)
reg('C23', c23, AI + 'The ordering step of form D is interpreted on up to 6 (thorough: 7) abstract characters of unknown combining classes, the class lookup replaced by its contract, and compared with a stable sort of each run; '
    'std::sort is modelled as unstable. With the real lookups: every pair of combining classes, longer and long sequences of chosen ones.')
def c24(ctx):
    rule = 'canonical composition = the algorithm of the standard'
    abstract(ctx, rule, 'COMPOSITION', 'N=%d' % (7 if ctx.thorough else 6))
    def oracle(g):
        x = g[1:1 + g[0]]
        if ucd.order(x) != x: return None
        want = ucd.compose(x)
        return None if g[2 + g[0]:] == want and g[1 + g[0]] == len(want) else 'the standard composes %s (%d)' % (seq(want), len(want))
    cmp = Compare(ctx, L.inert_breaks(), oracle, rule, 'include/u5e/canonical_composition.hpp', lambda g: '%s becomes %s (%d)' % (seq(g[1:1 + g[0]]), seq(g[2 + g[0]:]), g[1 + g[0]]))
    sec = seconds_all(); cx = CONTEXTS
    plan = [((contexts(cx),), len(cx), 'context'), (('SMALL=' + brace(SMALL), 'N=2'), 8, 'class'), (('SMALL=' + brace(NARROW if ctx.thorough else CORE), 'N=3'), 12, 'class'), (('LONG',), 13, 'pattern'), (('SECONDS=' + brace(sec),), min(64, len(sec)), 'second')]
    if ctx.thorough: plan.append((('SMALL=' + brace(CORE), 'N=4'), 12, 'class'))
    for d, n, by in plan: ctx.harness('forms.cpp', defs=('COMPOSE_ONLY',) + d, emits=cmp, rule=rule, slices=n, slice_by=by)
    if not ctx.viol and not ctx.inconclusive: cmp.done('compositions')
reg('C24', c24, AI + 'The public composition is interpreted on canonically ordered texts of up to 6 (thorough: 7) abstract characters with unknown classes and an unknown composition relation (contracts of the two lookups), against the algorithm of the standard; '
    'and with the real lookups on pairs and short texts, against an independent implementation over the frozen Unicode 9.0 data.')

def known(pid):
    from . import core
    return [k for k in core.known_findings() if isinstance(k, dict) and k.get('property') == pid and k.get('status') == 'known']
def extract(ctx, defs):
    """codepoint -> result of a lookup of the current tree, for the codepoints where it is not the default"""
    out = {}; brk = L.inert_breaks()
    def take(d):
        lf = L.Leaf(d)
        for v in lf.used():
            lo, hi = lf.vars[v]
            if hi - lo > 0x10FFFF: return   # a default leaf that goes on outside the codepoints
        n = lf.count()
        if n > 60000 and len(lf.forms) > 1 and lf.forms[-1] in (lf.forms[0], (0, ())): return
        import itertools
        used = lf.used()
        for combo in itertools.product(*[range(lf.vars[v][0], lf.vars[v][1] + 1) for v in used]):
            env = dict(zip(used, combo))
            if not lf.allowed(env): continue
            g = lf.at(env)
            out[tuple(g[:2]) if defs[0] == 'COMPOSE' else g[0]] = g[1:] if defs[0] != 'COMPOSE' else (g[3] if g[2] else None)
    lock = __import__('threading').Lock()
    def safe(d):
        with lock: take(d)
    ctx.harness('tables.cpp', defs=defs, emits=safe, rule='lookup', slices=7, slice_by='part')
    return out
class Lookups: pass
def lookups(ctx):
    """the tables of the current tree: classes, combining classes, decompositions, composites, boundaries between classes"""
    T = Lookups()
    gcb = extract(ctx, ('GCB',)); cc = extract(ctx, ('CCC',)); dec = {False: extract(ctx, ('DECOMP',)), True: extract(ctx, ('COMPAT',))}
    # composites, by their second element
    comp = {}; boxes = []
    def take(d):
        lf = L.Leaf(d)
        if lf.forms[2] == (0, ()): return
        import itertools
        used = lf.used()
        for combo in itertools.product(*[range(lf.vars[v][0], lf.vars[v][1] + 1) for v in used]):
            env = dict(zip(used, combo))
            if not lf.allowed(env): continue
            a, b, ok, r = lf.at(env)
            if ok: comp.setdefault(b, {})[a] = r
    ctx.harness('tables.cpp', defs=('COMPOSE',), emits=take, rule='lookup', slices=1)
    matrix = {}
    def mat(d): g = L.Leaf(d).at({}); matrix[(g[0], g[1])] = bool(g[2])
    ctx.harness('C18.cpp', ['check_matrix'], emits=mat, rule='boundary')
    if ctx.viol or ctx.inconclusive: return None
    G = lambda x: gcb[x][0] if x in gcb else 0
    C = lambda x: cc[x][0] if x in cc else 0
    def D(x, k):
        r = dec[k].get(x)
        return list(r[1:]) if r else [x]
    if len(comp) < 10 or len(matrix) < 324 or not any(cc[x][0] for x in cc): raise Broken('lookups could not be extracted')
    M = {}
    for (a, b), v in matrix.items(): M[(G(a), G(b))] = v
    classes = sorted({k[0] for k in M})
    allcp = sorted(set(gcb) | set(cc) | set(dec[True]) | set(dec[False]) | set(comp) | {a for m in comp.values() for a in m} | {0x30})
    T.G, T.C, T.D, T.comp, T.M, T.classes, T.allcp = G, C, D, comp, M, classes, allcp
    return T
def c29(ctx):
    rule = 'no codepoint that begins a grapheme interacts with the grapheme before it'
    T = lookups(ctx)
    if T is None: return
    G, C, D, comp, M, classes, allcp = T.G, T.C, T.D, T.comp, T.M, T.classes, T.allcp
    kf = known('C29'); used = {}
    pairs = 0
    for form, compat, composed in (('D', False, False), ('C', False, True), ('KD', True, False), ('KC', True, True)):
        last = {}
        for p in allcp:
            d = D(p, compat)
            last.setdefault(d[-1], {}).setdefault(G(p), []).append(p)
            # a trailing non-starter leaves earlier elements within reach of a non-starter only
        for c in allcp:
            d = D(c, compat); f = d[0]; g = G(c)
            begins = [a for a in classes if M.get((a, g), True)]
            pairs += len(begins)
            if C(f):
                # a non-starter reorders or composes with what is before it, unless that is a control (which nothing composes with)
                free = [a for a in begins if a not in (2, 3, 4)]
                if free: report(ctx, rule, form, None, c, '%s begins a grapheme after class %s and form %s of it begins with the non-starter %s' % (uplus(c), ucd.NAMES[free[0]], form, uplus(f)), kf, used)
                continue
            if not composed: continue
            for a in comp.get(f, {}):
                z = D(a, False)[-1]
                for gp, ps in last.get(z, {}).items():
                    if M.get((gp, g), True):
                        for p in ps: report(ctx, rule, form, p, c, '%s ends with %s and %s begins with %s in form %s: they compose across the grapheme boundary between them' % (uplus(p), uplus(z), uplus(c), uplus(f), form), kf, used)
    for k, n in used.items(): ctx.known.append('%s (%d pairs)' % (k, n))
    ctx.cov['pairs_of_classes_and_codepoints'] = pairs; ctx.cov['codepoints'] = len(allcp); ctx.cov['composites'] = sum(len(v) for v in comp.values()); ctx.cov['exhaustive'] = True
    # and over texts of two and three codepoints, through filter
    sec = seconds_all() if ctx.thorough else [(0x301, 0x301), V_, T_, (0x9BE, 0x9BE), (0x314F, 0x3150), (0xFF9E, 0xFF9E), (0x30, 0x39)]
    from concurrent.futures import ThreadPoolExecutor
    cs = []
    for low, F in FORMS.values():
        def oracle(g, F=F):
            n = g[0]; x = g[1:1 + n]; want = ucd.nf(F, x)
            if g[2 + n:] == want and g[1 + n] == len(want): return None
            if any(match(kf, F, a, b) for a, b in zip(x, x[1:])): return None
            return 'normalized at once it is %s' % seq(want)
        c = Compare(ctx, L.inert_breaks(), oracle, 'form %s of a text = its graphemes normalized one by one' % F, 'include/u5e/normalization_form_%s.hpp' % low, lambda g, F=F: 'form %s of %s, grapheme by grapheme, is %s' % (F, seq(g[1:1 + g[0]]), seq(g[2 + g[0]:])))
        for d, n, by in ((('SECONDS=' + brace(sec),), min(64, len(sec)), 'second'), (('SMALL=' + brace(NARROW if ctx.thorough else CORE), 'N=3'), 12, 'class')): cs.append((c, dict(defs=('WHOLE_TEXT', 'FORM=normalization_form_' + low) + d, slices=n, slice_by=by)))
    with ThreadPoolExecutor(8) as ex:
        fs = [ex.submit(ctx.harness, 'forms.cpp', emits=c, rule=rule, **kw) for c, kw in cs]
        for f in fs: f.result()
    if not ctx.viol and not ctx.inconclusive:
        for c, kw in cs[::2]: c.done('texts')
def match(kf, form, p, c):
    for k in kf:
        if form in k['forms'] and any(a <= c <= b for a, b in k['seconds']) and (p is None or any(a <= p <= b for a, b in k['firsts'])): return k
def report(ctx, rule, form, p, c, msg, kf, used):
    k = match(kf, form, p, c)
    if k: used[k['what']] = used.get(k['what'], 0) + 1
    elif len(ctx.viol) < 40: ctx.violation(rule, row(P + 'grapheme_cluster_break_data.hpp', c), msg)
reg('C29', c29, 'Table lemma: the lookups of the current tree are extracted by abstract interpretation for all codepoints, and every codepoint that can begin a grapheme is checked, in each form, against everything that can end the grapheme before it. '
    + AI + 'Texts of two and three codepoints through filter, compared with the form of the whole text.')

def c39(ctx):
    rule = 'a normalized text normalizes to itself'
    T = lookups(ctx)
    if T is None: return
    G, C, D, comp, M = T.G, T.C, T.D, T.comp, T.M
    kf = known('C39'); used = {}; say = lambda form, p, c, msg: report(ctx, rule, form, p, c, msg, kf, used)
    def sorted_(l):
        out, run = [], []
        for x in l + [None]:
            if x is not None and C(x): run.append(x)
            else: out += sorted(run, key=C); run = []; out += [x] if x is not None else []
        return out
    n = 0
    stable = {}
    for compat in (False, True):
        k = 'KD' if compat else 'D'
        for c in T.allcp:
            for x in D(c, compat):
                n += 1
                if D(x, compat) != [x]: say(k, None, c, '%s decomposes to %s, whose own decomposition is %s: form %s of it changes when it is taken again' % (uplus(c), uplus(x), seq(D(x, compat)), k))
        stable[compat] = lambda x, compat=compat: D(x, compat) == [x]
    for b, m in comp.items():
        for a, r in m.items():
            n += 1
            parts = sorted_(D(a, False) + D(b, False))
            if sorted_(D(r, False)) != parts: say('C', a, b, '%s + %s compose to %s, which decomposes to %s instead of %s' % (uplus(a), uplus(b), uplus(r), seq(D(r, False)), seq(parts)))
            if C(r) or C(a): say('C', a, b, '%s + %s compose to %s: a composite and its first element have to be starters' % (uplus(a), uplus(b), uplus(r)))
            # what form KC composes it must not decompose any further
            if all(stable[True](x) for x in D(a, False) + D(b, False)) and sorted_(D(r, True)) != parts: say('KC', a, b, '%s + %s compose to %s, whose compatibility decomposition is %s' % (uplus(a), uplus(b), uplus(r), seq(D(r, True))))
    # where graphemes of the normalized text run together
    bound = lambda x, y: M.get((G(x), G(y)), True)
    for form, compat, composed in (('D', False, False), ('C', False, True), ('KD', True, False), ('KC', True, True)):
        last = {}
        for p in T.allcp: last.setdefault(D(p, compat)[-1], {}).setdefault(G(p), []).append(p)
        for c in T.allcp:
            f = D(c, compat)[0]; g = G(c)
            begins = [a for a in T.classes if M.get((a, g), True) and a not in (2, 3, 4)]; n += len(begins)
            if C(f):
                joins = [a for a in T.classes if a not in (2, 3, 4) and not M.get((a, G(f)), True)]
                if begins and joins: say(form, None, c, '%s begins a grapheme after class %s, and form %s of it begins with the non-starter %s, which does not: the next normalization reorders it' % (uplus(c), ucd.NAMES[begins[0]], form, uplus(f)))
                continue
            if not composed: continue
            for a in comp.get(f, {}):
                z = D(a, False)[-1]
                for gp, ps in last.get(z, {}).items():
                    if M.get((gp, g), True) and not (bound(z, f) and bound(a, f)):
                        for p in ps: say(form, p, c, '%s ends with %s and %s begins with %s in form %s: side by side they are one grapheme, and compose when it is normalized again' % (uplus(p), uplus(z), uplus(c), uplus(f), form))
    for k, m in used.items(): ctx.known.append('%s (%d pairs)' % (k, m))
    ctx.cov['facts_of_the_tables'] = n; ctx.cov['composites'] = sum(len(v) for v in comp.values()); ctx.cov['exhaustive'] = False
    by = dict(slices=48, slice_by='part')
    plan = [J('C39.cpp', 'N=1', 'ANY', 'TASKS=%d' % (8 if ctx.thorough else 4), **by), J('C39.cpp', 'N=2', 'KINDS=%d' % (26 if ctx.thorough else 18), **by), J('C39.cpp', 'N=3', 'TASKS=4', 'KINDS=%d' % (12 if ctx.thorough else 7), **by), J('C39.cpp', 'LONG', 'LONGS=2', slices=10, slice_by='pattern')]
    if not ctx.viol: run(ctx, plan, rule)
reg('C39', c39, 'Table lemma: the lookups of the current tree are extracted by abstract interpretation for all codepoints; decompositions are complete, composites decompose to their parts, and nothing that ends a grapheme composes or reorders with what begins the next one in the normalized text. '
    + AI + 'Any codepoint, texts of chosen kinds and long texts are normalized twice through filter, in both encodings; the second result equals the first.')

def c09(ctx):
    """one client program per operation and pair of texts, each given to both front ends"""
    from . import programs
    from concurrent.futures import ThreadPoolExecutor
    rule = 'texts of different encodings do not mix'
    inc = ['-I' + HARN, '-I' + os.path.join(REPO, 'include')]
    pre = os.path.join(HARN, 'C09.h'); pch = {CLANG: os.path.join(ctx.dir, 'clang.pch'), GXX: os.path.join(ctx.dir, 'C09.h.gch')}
    use = {CLANG: ['-include-pch', pch[CLANG]], GXX: ['-I' + ctx.dir, '-include', os.path.join(ctx.dir, 'C09.h')]}
    for cc in (CLANG, GXX):
        r = sh([cc, STD, '-w', '-x', 'c++-header', *inc, pre, '-o', pch[cc]])
        if r.returncode: raise Broken('the headers do not compile: ' + r.stderr[:1500])
    progs = [(w, t, ok, cc) for w, t, ok in programs.programs() for cc in (CLANG, GXX)]
    def one(p):
        w, t, ok, cc = p
        r = sh([cc, STD, '-w', '-fsyntax-only', *use[cc], *inc, '-x', 'c++', '-'], input=t)
        if r.returncode not in (0, 1): raise Broken('%s fails on: %s: %s' % (cc, t, r.stderr[:500]))
        return p, r
    n = {True: 0, False: 0}
    with ThreadPoolExecutor(8) as ex:
        for (w, t, ok, cc), r in ex.map(one, progs):
            n[ok] += 1
            if (r.returncode == 0) == ok: continue
            err = [l for l in r.stderr.split('\n') if 'error' in l]
            at = next((m.group(0) for l in r.stderr.split('\n') for m in [re.search(re.escape(REPO) + r'/[^:]+:\d+', l)] if m), 'include/u5e')
            if len(ctx.viol) < 60: ctx.violation(rule, at, '%s: %s by %s: %s' % (w, 'rejected' if ok else 'accepted', os.path.basename(cc), (err[0] if err else r.stderr[:200]) if ok else t))
    if n[True] < 100 or n[False] < 100: raise Broken('too few programs')
    ctx.cov['programs_that_must_compile'] = n[True]; ctx.cov['programs_that_must_not'] = n[False]
    ctx.cov['samples'] = [dict(what=w, program=t, must_compile=ok) for w, t, ok in programs.programs()[::40]]
    ctx.cov['exhaustive'] = True
reg('C09', c09, 'Type-level witnesses: every operation over every pair of texts is a client program of its own; the type checkers of clang and g++ must accept each correctly typed one and reject each that mixes encodings or stores an encoding in units of another width.')

def headers():
    base = os.path.join(REPO, 'include', 'u5e'); out = []
    for d, _, fs in os.walk(base): out += [os.path.relpath(os.path.join(d, f), base) for f in fs if f.endswith(('.hpp', '.h', '.hh'))]
    return sorted(out)
def c35(ctx):
    from . import headers as H
    from concurrent.futures import ThreadPoolExecutor
    hs = headers(); rule = 'every header stands alone'
    inc = ['-I' + HARN, '-I' + os.path.join(REPO, 'include')]
    where = lambda err, h: next((m.group(0) for l in err.split('\n') for m in [re.search(re.escape(REPO) + r'/[^:]+:\d+', l)] if m), 'include/u5e/' + h)
    def front(cc, text, warn):
        return sh([cc, STD, *(['-Wall', '-Werror'] if warn else ['-w']), '-fsyntax-only', *inc, '-x', 'c++', '-'], input=text)
    progs = []
    missing = [h for h in H.USES if h not in hs]
    if len(missing) > len(H.USES) / 2: raise Broken('the public headers are not where they were')
    for h in missing: ctx.violation(rule, 'include/u5e/' + h, 'public header %s no longer exists: programs that include it do not compile' % h)
    line = lambda h: '#include <u5e/%s>\n' % h
    for h in hs:
        progs += [('%s alone' % h, h, cc, line(h) + H.use(h, 1) + '\n', cc == GXX) for cc in (GXX, CLANG)]
        progs += [('%s twice' % h, h, GXX, line(h) * 2 + H.use(h, 1) + '\n', True)]
    uses = lambda l: ''.join(H.use(h, k) + '\n' for k, h in enumerate(l))
    rev = hs[::-1]
    import random
    rnd = random.Random(ctx.seed); orders = [('alphabetical', hs), ('reverse', rev)]
    for k in range(40 if ctx.thorough else 6): o = hs[:]; rnd.shuffle(o); orders.append(('order %s...' % ' '.join(o[:4]), o))
    for what, o in orders:
        progs += [('all headers, %s' % what, o[0], cc, ''.join(map(line, o)) + uses(o), cc == GXX) for cc in (GXX, CLANG)]
    if ctx.thorough:
        progs += [('%s then %s' % (a, b), b, GXX, line(a) + line(b) + H.use(a, 1) + '\n' + H.use(b, 2) + '\n', True) for a in hs for b in hs if a != b]
    with ThreadPoolExecutor(8) as ex:
        for (what, h, cc, text, warn), r in zip(progs, ex.map(lambda p: front(p[2], p[3], p[4]), progs)):
            if r.returncode == 0: continue
            if r.returncode != 1: raise Broken('%s fails: %s' % (cc, r.stderr[:500]))
            err = [l for l in r.stderr.split('\n') if 'error' in l]
            if len(ctx.viol) < 60: ctx.violation(rule, where('\n'.join(err), h), '%s: %s: %s' % (what, os.path.basename(cc), (err or [r.stderr[:300]])[0]))
    ctx.cov['headers'] = len(hs); ctx.cov['programs'] = len(progs); ctx.cov['orders'] = [w for w, o in orders]
    if ctx.viol: return
    # several translation units of one program
    strong = 0
    for cc in (GXX, CLANG):
        objs = []
        for k in (1, 2):
            o = os.path.join(ctx.dir, 'all%d-%s.o' % (k, os.path.basename(cc)))
            r = sh([cc, STD, *(['-Wall', '-Werror'] if cc == GXX else ['-w']), '-O0', *inc, '-DUNIT=%d' % k, '-c', os.path.join(HARN, 'two.cpp'), '-o', o])
            if r.returncode: ctx.violation('every header links from many places', where(r.stderr, ''), 'a program that uses every header: %s: %s' % (os.path.basename(cc), ([l for l in r.stderr.split('\n') if 'error' in l] or [r.stderr[:300]])[0])); break
            objs.append(o)
        if len(objs) < 2: continue
        defs = []
        for o in objs:
            d = set()
            for l in sh(['/usr/bin/nm', '-P', o]).stdout.split('\n'):
                f = l.split()
                if len(f) >= 2 and f[1] in 'TDBRCSG': d.add(f[0])
            defs.append(d); strong += len(d)
        for x in sorted(defs[0] & defs[1]):
            n = sh(['/usr/bin/c++filt', x]).stdout.strip(); ctx.violation('every header links from many places', 'include/u5e', '%s is defined by each translation unit that includes its header (%s)' % (n, os.path.basename(cc)))
        libo = []
        for s in ctx.lib_sources():
            o = os.path.join(ctx.dir, os.path.basename(s) + '-' + os.path.basename(cc) + '.o')
            r = sh([cc, STD, '-O0', '-w', *inc, '-c', s, '-o', o])
            if r.returncode: raise Broken('cannot compile %s: %s' % (s, r.stderr[:500]))
            libo.append(o)
        r = sh([cc, '-shared', '-Wl,--no-undefined', '-Wl,--allow-multiple-definition', *[o for o in objs], *libo, '-o', os.path.join(ctx.dir, 'all.so')])
        for l in r.stderr.split('\n'):
            if 'undefined reference' in l: ctx.violation('every header links from many places', 'include/u5e', 'declared in a header and defined nowhere: ' + l.split('undefined reference')[1][:200])
    if not strong: raise Broken('no symbols found')
    ctx.cov['strong_symbols_compared'] = strong
reg('C35', c35, 'Front-end witnesses: each header alone, twice, and all of them in many orders, each with a use of what it is there for, is given to g++ (with the warning flags of the build) and clang; '
    'the symbol tables of two translation units that use everything must share no strong symbol, and every symbol they need must be defined by the library sources.')


def effects_bc(ctx, src, defs=()):
    out = os.path.join(ctx.dir, 'fx-' + os.path.basename(src) + '-' + '-'.join(d.replace('=', '') for d in defs) + '.bc')
    r = sh([CLANG, STD, '-g', '-O1', '-Xclang', '-disable-llvm-passes', '-w', '-I' + HARN, '-I' + os.path.join(REPO, 'include'), *['-D' + d for d in defs], '-emit-llvm', '-c', src, '-o', out])
    if r.returncode: raise Broken('cannot compile %s:\n%s' % (src, r.stderr[:2000]))
    return out
def effects(ctx, files, prefix):
    from .core import build_tool
    import json
    with ctx.lock: tool = build_tool('effects')
    r = sh([tool, *files, '--entry-prefix=' + prefix])
    recs = [json.loads(l) for l in r.stdout.split('\n') if l.strip()]
    if r.returncode or not any('summary' in x for x in recs): raise Broken('the effects analysis failed: ' + r.stderr[:1000])
    return recs
def library_and_uses(ctx):
    from concurrent.futures import ThreadPoolExecutor
    srcs = ctx.lib_sources(); ctx.units += [os.path.relpath(x, REPO) for x in srcs] + ['include/u5e (every header, through harness/all.cpp)']
    with ThreadPoolExecutor(8) as ex: return list(ex.map(lambda s: effects_bc(ctx, s), srcs + [os.path.join(HARN, 'all.cpp')]))
def c30(ctx):
    rule = 'nothing that outlives the call is written'
    src = os.path.join(HARN, 'C30_control.cpp'); text = open(src).read(); ctl = effects_bc(ctx, src)
    # controls: every planted effect is reported, no innocent function is
    names = re.findall(r'^int (bad_\w+)', text, re.M), re.findall(r'^int (good_\w+)', text, re.M)
    hit = lambda recs: {n for l in names for n in l for r in recs if 'effect' in r and (n + '(' in r['path'] + r['function'] or n + ' ' in r['chain'])}
    miss = set(names[0]) - hit(effects(ctx, [ctl], 'bad_')); extra = set(names[1]) & hit(effects(ctx, [ctl], 'good_'))
    if miss or extra or len(names[0]) < 40: raise Broken('controls of the effects analysis: not reported %s, wrongly reported %s' % (sorted(miss), sorted(extra)))
    recs = effects(ctx, library_and_uses(ctx), 'all_')
    for r in recs:
        if 'effect' in r: ctx.violation(rule, r['at'], '%s, in %s' % (r['effect'], r['function'][:160]), trace=[r['chain'][:400], r['path'][:400]])
        elif 'unknown' in r: ctx.inconclusive.append('calls %s, whose effects are not known' % r['unknown'])
        elif 'summary' in r:
            if len(r['entries']) < 14 or r['writes'] < 100: raise Broken('too little was analysed: %s' % r)
            ctx.cov.update({k: r[k] for k in ('functions', 'instructions', 'writes', 'external_calls', 'mutable_globals', 'constant_globals', 'objects')}); ctx.cov['entries'] = r['entries']
    ctx.cov['positive_controls_reported'] = len(names[0]); ctx.cov['innocent_controls_quiet'] = len(names[1]); ctx.cov['exhaustive'] = True
reg('C30', c30, 'Effect analysis: inclusion-based points-to over the linked IR of the library and of an instantiation of every template; every store, atomic, memory intrinsic and external call reachable from a public function is examined: '
    'none may reach an object of static or thread storage, memory such an object holds, a one-time-initialisation guard, or a function that changes or depends on the state of the process.')
def c31(ctx):
    rule = 'no start-up code'; src = os.path.join(HARN, 'C31_control.cpp')
    for k in range(1, 9):
        if not any('startup' in r and not r['benign'] for r in effects(ctx, [effects_bc(ctx, src, ('CASE=%d' % k,))], 'use')): raise Broken('control %d of the start-up analysis was not reported' % k)
    if any('startup' in r and not r['benign'] for r in effects(ctx, [effects_bc(ctx, src, ('INNOCENT',))], 'use')): raise Broken('the innocent control of the start-up analysis was reported')
    objs = 0
    for f in library_and_uses(ctx):
        for r in effects(ctx, [f], 'all_'):
            if 'startup' in r and not r['benign']: ctx.violation(rule, r['at'] or r['unit'], 'code runs before main for %s: %s' % (os.path.relpath(r['unit'], REPO) if r['unit'].startswith(REPO) else r['unit'], r['startup'][:300]))
            elif 'startup' in r: ctx.cov.setdefault('start_up_code_of_the_standard_streams', []).append(r['unit'])
            elif 'summary' in r: objs += r['mutable_globals'] + r['constant_globals']
    # the other compiler, as the library is built
    n = 0
    for s in ctx.lib_sources() + [os.path.join(HARN, 'all.cpp')]:
        o = os.path.join(ctx.dir, 'init-' + os.path.basename(s) + '.o')
        r = sh([GXX, STD, '-O2', '-w', '-I' + HARN, '-I' + os.path.join(REPO, 'include'), '-c', s, '-o', o])
        if r.returncode: raise Broken('g++ cannot compile %s: %s' % (s, r.stderr[:500]))
        sec = sh(['/usr/bin/objdump', '-h', o]).stdout; n += 1
        if re.search(r'\.(init_array|ctors|preinit_array)', sec) and '_ZNSt8ios_base4InitC1Ev' not in sh(['/usr/bin/nm', o]).stdout:
            ctx.violation(rule, s, 'the object g++ makes of it has start-up code')
    if objs < 1000: raise Broken('the tables of the library were not found')
    ctx.cov['global_objects'] = objs; ctx.cov['objects_of_g++'] = n; ctx.cov['controls'] = 9; ctx.cov['exhaustive'] = True
reg('C31', c31, 'Start-up analysis: no translation unit of the library, nor one that instantiates every template, may have constructors of global objects, constructor functions or resolvers in its IR (clang) or object (g++): every table is constant-initialised.')

TECH = {'C09': 'static analysis: compile-fail witnesses (type checking of generated client programs, each with a correctly typed twin)',
        'C30': 'static analysis: effect analysis over LLVM IR (inclusion-based points-to, call graph, external-call models), with positive controls',
        'C31': 'static analysis: query over LLVM IR and object files for start-up code, with positive controls',
        'C35': 'static analysis: compile witnesses (every header, many orders, two compilers) and symbol table comparison'}
