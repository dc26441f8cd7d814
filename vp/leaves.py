"""Comparing the leaves an analysis emits (affine results over boxes of inputs) with the database."""
import bisect, itertools
from . import ucd
M64 = 1 << 64
def signed(x):
    x %= M64
    return x - M64 if x >> 63 else x

class Leaf:
    __slots__ = ('forms', 'vars', 'imprecise', 'tag', 'entry', 'diffs')
    def __init__(self, d):
        self.tag = d['emit']; self.entry = d.get('entry_')
        self.forms = [(f[0], tuple(zip(f[1::2], f[2::2]))) for f in d['vals']]
        self.vars = {int(k): tuple(v) for k, v in d['vars'].items()}
        self.diffs = [tuple(x) for x in d.get('diffs', ())]   # v_a - v_b <= c
        self.imprecise = d.get('imprecise', False)
    def at(self, env):
        return [signed(c + sum(k * env[v] for v, k in t)) for c, t in self.forms]
    def used(self):
        return sorted({v for c, t in self.forms for v, k in t} | {v for a, b, c in self.diffs for v in (a, b)})
    def allowed(self, env): return all(env[a] - env[b] <= c for a, b, c in self.diffs)
    def count(self):
        n = 1
        for v in self.used(): n *= self.vars[v][1] - self.vars[v][0] + 1
        return n

class Breaks:
    """Positions where the oracle changes its affine form."""
    def __init__(self, starts): self.s = sorted(set(starts) | {0, ucd.NCP})
    def ends(self, lo, hi):
        """both ends of every piece of [lo, hi]"""
        s = self.s; i = bisect.bisect_right(s, lo); out = []; a = lo
        while a <= hi:
            b = min(hi, s[i] - 1) if i < len(s) else hi
            out.append(a)
            if b != a: out.append(b)
            a = b + 1; i += 1
        return out

def inert_breaks():
    """every codepoint that takes part in any normalization stands alone"""
    special = set(ucd.RAW) | set(ucd.CCC) | {x for p in ucd.COMP for x in p}
    special |= set(range(0xAC00, 0xD7A4))
    # leading, vowel and trailing jamo: within each the forms are affine
    return Breaks(list(special) + [x + 1 for x in special] + [0x1100, 0x1113, 0x1161, 0x1176, 0x11A8, 0x11C3])
def gcb_breaks(): return Breaks([r[0] for r in ucd.GCBR] + [r[1] + 1 for r in ucd.GCBR])
def ccc_breaks():
    return Breaks([x for x in ucd.CCC if ucd.CCC.get(x - 1) != ucd.CCC[x]] + [x + 1 for x in ucd.CCC if ucd.CCC.get(x + 1) != ucd.CCC[x]])

def points(leaf, brk, limit=2000000):
    """Environments that decide the leaf: all ends of pieces. Variables whose combination makes up one input
    (quotient and remainder) are enumerated in full."""
    used = leaf.used(); per = {}
    single = {}
    for c, t in leaf.forms:
        if len(t) == 1 and t[0][1] == 1: single.setdefault(t[0][0], c)
    n = 1
    for v in used:
        lo, hi = leaf.vars[v]
        if v in single:
            off = signed(single[v]); per[v] = [x - off for x in brk.ends(lo + off, hi + off)]
        else:
            if hi - lo > 200000: raise ValueError('a composite input of %d values' % (hi - lo + 1))
            per[v] = range(lo, hi + 1)
    for _ in leaf.diffs[:3]: # where a difference constraint is tight
        for a, b, c in leaf.diffs:
            for x, y, k in ((a, b, c), (b, a, -c)):
                lo, hi = leaf.vars[x]; new = {z + k for z in per[y] if lo <= z + k <= hi} - set(per[x])
                if new: per[x] = sorted(set(per[x]) | new)
    for v in used: n *= len(per[v])
    if n > limit: raise ValueError('%d points' % n)
    for combo in itertools.product(*[per[v] for v in used]):
        env = dict(zip(used, combo))
        if not leaf.diffs or leaf.allowed(env): yield env
