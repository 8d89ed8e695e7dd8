''' C07: decomposition and classification of every bounded weight vector, against explicit strand tracing. '''

from fractions import Fraction
from itertools import product

from mc.spaces import *

BATCH = 1

def plan(tier):
    if tier == 'thorough':
        return [((0, 3), 4, -3, 18), ((1, 1), 4, -3, 18), ((0, 4), 2, -2, 9), ((1, 2), 2, -2, 9), ((0, 5), 1, -1, 5), ((2, 1), 1, -1, 6), ((1, 3), 1, -1, 4)]
    return [((0, 3), 1, -3, 8), ((1, 1), 1, -3, 8), ((0, 4), 1, -1, 3), ((1, 2), 1, -1, 3)]

def bounds(tier):
    return f'all vectors with (surface, labellings, min weight, sum of |weights|) in {plan(tier)} on all triangulations; unions of two surfaces; weights up to 10^5 from model twists'

UNIONS = [[(1, 1), (1, 1)], [(0, 3), (1, 1)], [(0, 3), (0, 3)]]

SYSTEMS = {
    'quick': [((0, 4), 4, 2), ((1, 2), 4, 2), ((2, 1), 4, 1), ((0, 5), 3, 1)],
    'thorough': [((0, 4), 8, 3), ((1, 2), 7, 3), ((2, 1), 6, 2), ((0, 5), 6, 2), ((1, 3), 6, 1), ((2, 2), 5, 1)],
    }
MULTS = {1: [(2,)], 2: [(1, 1), (3, 2)], 3: [(1, 1, 1), (1, 2, 1)]}

def cases(tier):
    out = []
    for (g, n), ks, lo, total in plan(tier):
        for t in triangulations(g, n):
            for k in range(ks):
                for first in range(lo, total + 1):
                    out.append({'kind': 'box', 'tri': [list(x) for x in labelled(t, k + 1).triples], 'lo': lo, 'total': total, 'first': first})
    for parts in UNIONS:
        for ts in product(*[triangulations(*p) for p in parts]):
            R = disjoint_union(*ts)
            for first in range(-1, 5 if tier == 'thorough' else 4):
                out.append({'kind': 'box', 'tri': [list(x) for x in R.relabel(relabelling(R.zeta, 1)).triples], 'lo': -1, 'total': 4 if tier == 'thorough' else 3, 'first': first})
    for (g, n), length, size in SYSTEMS[tier]:
        for t in triangulations(g, n):
            R = labelled(t, 3)
            N = len(strands_up_to(R, length))
            for i in range(0, N, 15):
                out.append({'kind': 'system', 'tri': [list(x) for x in R.triples], 'length': length, 'size': size, 'from': i, 'to': i + 15})
    for (g, n) in [(1, 1), (0, 4), (1, 2), (0, 5), (2, 1)] + ([(1, 3), (0, 6), (2, 2), (3, 1)] if tier == 'thorough' else []):
        T = triangulations(g, n, 40)
        for t in (T if tier == 'thorough' else [T[0], T[-1]]):
            for k in (3, -17):
                out.append({'kind': 'heavy', 'tri': [list(x) for x in labelled(t, 1).triples], 'power': k, 'count': 14 if tier == 'thorough' else 8})
    return out

def compare(R, T, C, v, ctx, full=True):
    ''' The lamination of v has exactly the components C. '''
    L = T(list(v))
    want = {tuple(strand_vector(R, s)): (m, kind_of(R, s)) for s, m in C.items()}
    got = L.components()
    ctx.equal({tuple(c): m for c, m in got.items()}, {c: m for c, (m, _) in want.items()}, lambda: f'components of {v}')
    total = sum(C.values())
    kinds = {k for _, k in want.values()}
    K = curver.kernel
    if not C: wanted = K.IntegralLamination  # The empty lamination may have any integral class.
    elif kinds == {'arc'}: wanted = K.Arc if total == 1 else K.MultiArc
    elif 'arc' not in kinds: wanted = K.Curve if total == 1 else K.MultiCurve
    else: wanted = K.IntegralLamination
    ctx.check(type(L) is wanted if C else isinstance(L, wanted), lambda: f'class of {v} is {type(L).__name__}, expected {wanted.__name__}')
    for c in got:
        ctx.check(type(c) is (K.Arc if want[tuple(c)][1] == 'arc' else K.Curve), lambda: f'class of component {list(c)} of {v}: {type(c).__name__}')
        ctx.check(c.triangulation == T, 'component on another triangulation')
    ctx.equal(L.num_components(), total, lambda: f'num_components of {v}')
    ctx.equal(L.is_empty(), not C, lambda: f'is_empty of {v}')
    ctx.equal(bool(L), bool(C), lambda: f'truth value of {v}')
    ctx.state(); ctx.trace(); ctx.step(len(C))
    ctx.outcome(wanted.__name__ + ('/peripheral' if 'peripheral' in kinds else ''))
    if not full: return L
    part = lambda f: [sum(m * x[i] for x, (m, k) in want.items() if f(k)) for i in range(R.zeta)]
    ctx.equal(list(L.multiarc()), part(lambda k: k == 'arc'), lambda: f'multiarc of {v}')
    ctx.equal(list(L.multicurve()), part(lambda k: k != 'arc'), lambda: f'multicurve of {v}')
    ctx.equal(list(L.peripheral()), part(lambda k: k == 'peripheral'), lambda: f'peripheral part of {v}')
    ctx.equal(list(L.non_peripheral()), part(lambda k: k != 'peripheral'), lambda: f'non peripheral part of {v}')
    ctx.equal(list(L.skeleton()), [sum(x[i] for x in want) for i in range(R.zeta)], lambda: f'skeleton of {v}')
    ctx.equal(L.is_peripheral(), kinds <= {'peripheral'}, lambda: f'is_peripheral of {v}')
    ctx.equal(L.is_non_peripheral(), 'peripheral' not in kinds, lambda: f'is_non_peripheral of {v}')
    ctx.equal(L.is_integral(), True, lambda: f'is_integral of {v}')
    if C:
        ctx.check(L.peek_component() in got, lambda: f'peek_component of {v}')
        ctx.check(isinstance(L.multiarc(), K.MultiArc) or 'arc' not in kinds, lambda: f'class of multiarc of {v}')
        ctx.check(isinstance(L.multicurve(), K.MultiCurve) or kinds == {'arc'}, lambda: f'class of multicurve of {v}')
        ctx.equal(L.skeleton().num_components(), len(C), lambda: f'components of skeleton of {v}')
    return L

def run_case(case, ctx):
    R = Tri(case['tri'])
    T = build(R)
    K = curver.kernel
    if case['kind'] == 'box':
        D = ref.Diagram
        n = 0
        for v in vectors(R, case['lo'], case['total'], case['total']):
            if v[0] != case['first']: continue
            C = components(R, v)
            L = compare(R, T, C, v, ctx, R.zeta < 6 or n % 3 == 0)
            n += 1
            if n % 7 == 0:  # The dictionary form of the constructor, fractional and unpromoted laminations.
                d = {i: x for i, x in enumerate(v) if x}
                ctx.equal(list(T.lamination(d)), list(v), lambda: f'dictionary form of {v}')
                raw = T.lamination(list(v), promote=False)
                ctx.check(raw == L and hash(raw) == hash(L), lambda: f'unpromoted {v} differs')
                ctx.check(raw.promote() == L and type(raw.promote()) is type(L), lambda: f'promotion of {v}')
                if any(v):
                    frac = T([Fraction(x, 2) + Fraction(1, 7) * (x > 0) for x in v]) if any(x > 0 for x in v) else T([Fraction(x, 7) for x in v])
                    if any(x.denominator > 1 for x in frac): ctx.check(type(frac) is K.Lamination and not frac.is_integral(), lambda: f'fractional {list(frac)} classified as {type(frac).__name__}')
        # Inconsistent vectors are rejected or left unclassified.
        if case['first'] in (0, 1):
            for v in product(range(0, 3), repeat=min(R.zeta, 3)):
                v = (v + (0,) * R.zeta)[:R.zeta]
                if not D.valid(R, v):
                    try:
                        ctx.check(not isinstance(T(list(v)), K.IntegralLamination), lambda: f'inconsistent {v} classified')
                    except ValueError:
                        pass
                    ctx.outcome('inconsistent')
        return
    if case['kind'] == 'system':
        S = strands_up_to(R, case['length'])
        D = disjointness(R, S)
        N = len(S)
        for i in range(case['from'], min(case['to'], N)):
            compare(R, T, {S[i]: 1}, strand_vector(R, S[i]), ctx)
            sets = [(i,)]
            if case['size'] >= 2: sets += [(i, j) for j in range(i + 1, N) if (i, j) in D]
            if case['size'] >= 3: sets += [(i, j, k) for j in range(i + 1, N) if (i, j) in D for k in range(j + 1, N) if (i, k) in D and (j, k) in D]
            for index, c in enumerate(sets):
                m = MULTS[len(c)][(index + i) % len(MULTS[len(c)])]
                C = {S[x]: y for x, y in zip(c, m)}
                compare(R, T, C, vector(R, C), ctx)
        return
    # Heavily twisted laminations.
    S = strands_up_to(R, 4 if R.zeta > 9 else 6, peripheral=True)
    curves = [s for s in S if kind_of(R, s) == 'curve']
    essential = curves[:4]
    per = [s for s in S if kind_of(R, s) == 'peripheral'][:1]
    done = 0
    for a in essential:
        for b in essential:
            if a == b or intersection(R, a, b) == 0: continue
            for s in curves[:4] + [x for x in S if kind_of(R, x) == 'arc'][::5][:4]:
                C = {s: 2}
                mid = ref.twist_multi(R, {a: 1}, case['power'], C)
                C = ref.twist_multi(R, {b: 1}, 5, mid) if sum(len(x[1]) for x in mid if x[0] != 'e') < 400 else mid
                for p in per:
                    if intersection(R, p, s) == 0: C[p] = 3
                compare(R, T, C, vector(R, C), ctx)
                done += 1
                if done >= case['count']: return
