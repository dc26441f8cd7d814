"""Independent oracle for the Unicode 9.0 properties and algorithms, from the
frozen data in data/ucd9.json (never from the repository under analysis)."""
import json, os, bisect
_d = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'data', 'ucd9.json')))
SB, LB, VB, TB, LC, VC, TC = 0xAC00, 0x1100, 0x1161, 0x11A7, 19, 21, 28
NCP = 0x110000
CCC = {}
for lo, hi, c in _d['ccc']:
    for x in range(lo, hi + 1): CCC[x] = c
RAW = {int(k): (v[0], v[1:]) for k, v in _d['decomp'].items()}
GCBR = _d['gcb']
_gs = [r[0] for r in GCBR]
ENUM = dict(Prepend=1, CR=2, LF=3, Control=4, Extend=5, Regional_Indicator=6, SpacingMark=7, L=8, V=9, T=10, LV=11, LVT=12,
            E_Base=13, E_Modifier=14, ZWJ=15, Glue_After_Zwj=16, E_Base_GAZ=17)
NAMES = ['OTHER', 'PREPEND', 'CR', 'LF', 'CONTROL', 'EXTEND', 'REGIONAL_INDICATOR', 'SPACINGMARK', 'L', 'V', 'T', 'LV', 'LVT',
         'E_BASE', 'E_MODIFIER', 'ZWJ', 'GLUE_AFTER_ZWJ', 'E_BASE_GAZ']
def gcb(cp):
    i = bisect.bisect_right(_gs, cp) - 1
    return ENUM[GCBR[i][2]] if i >= 0 and GCBR[i][1] >= cp else 0
def ccc(cp): return CCC.get(cp, 0)
def is_hangul(cp): return SB <= cp < SB + LC * VC * TC
def hangul(cp):
    s = cp - SB
    r = [LB + s // (VC * TC), VB + s % (VC * TC) // TC]
    if s % TC: r.append(TB + s % TC)
    return r
_full = {False: {}, True: {}}
def full(cp, compat):
    if is_hangul(cp): return hangul(cp)
    m = _full[compat]
    if cp in m: return m[cp]
    e = RAW.get(cp)
    if not e or (e[0] and not compat): return [cp]
    r = []
    for x in e[1]: r += full(x, compat)
    m[cp] = r
    return r
_ex = set(_d['excl'])
COMP = {}
for cp, (tag, seq) in RAW.items():
    if tag or len(seq) != 2 or cp in _ex: continue
    if ccc(cp) or ccc(seq[0]): continue
    COMP[tuple(seq)] = cp
def compose2(a, b):
    if LB <= a < LB + LC and VB <= b < VB + VC: return SB + ((a - LB) * VC + (b - VB)) * TC
    if is_hangul(a) and (a - SB) % TC == 0 and TB < b < TB + TC: return a + b - TB
    return COMP.get((a, b))
def order(seq):
    out = []; run = []
    for c in seq:
        if ccc(c) == 0:
            run.sort(key=ccc); out += run; run = []; out.append(c)
        else: run.append(c)
    run.sort(key=ccc)
    return out + run
def compose(seq):
    out = []; starter = -1; last = 0
    for c in seq:
        k = ccc(c)
        if starter >= 0:
            blocked = len(out) - 1 != starter and last >= k
            if not blocked:
                p = compose2(out[starter], c)
                if p is not None: out[starter] = p; continue
        if k == 0: starter = len(out)
        last = k
        out.append(c)
    return out
def nf(form, seq):
    r = []
    for c in seq: r += full(c, form in ('KC', 'KD'))
    r = order(r)
    return compose(r) if form in ('C', 'KC') else r
def boundary(va, vb):
    n = NAMES; a, b = n[va], n[vb]
    if a == 'CR' and b == 'LF': return False
    if a in ('CR', 'LF', 'CONTROL') or b in ('CR', 'LF', 'CONTROL'): return True
    if a == 'L' and b in ('L', 'V', 'LV', 'LVT'): return False
    if a in ('LV', 'V') and b in ('V', 'T'): return False
    if a in ('LVT', 'T') and b == 'T': return False
    if b in ('EXTEND', 'ZWJ', 'SPACINGMARK'): return False
    if a == 'PREPEND': return False
    if a in ('E_BASE', 'E_BASE_GAZ', 'EXTEND') and b == 'E_MODIFIER': return False
    if a == 'ZWJ' and b in ('GLUE_AFTER_ZWJ', 'E_BASE_GAZ'): return False
    if a == b == 'REGIONAL_INDICATOR': return False
    return True
def cuts(fn, top=NCP):
    """starts of the maximal intervals of equal fn over 0..top-1"""
    out = []; prev = object()
    for x in range(top):
        v = fn(x)
        if v != prev: out.append(x); prev = v
    return out
