''' C01: flips, multiflips and relabellings against explicit rewriting of strands. '''

from fractions import Fraction
from itertools import combinations, product

from mc.spaces import *
from mc.ref import flip_strand, relabel_strand

BIG = 3 ** 50

def space(tier):
    deep = tier == 'thorough'
    # (surface or list of surfaces, relabellings, lowest weight, total weight)
    S = [((0, 3), 4, -2, 9), ((1, 1), 4, -2, 9), ((0, 4), [0], -2, 5), ((0, 4), [1], -2, 3), ((1, 2), [0], -2, 5), ((1, 2), [1], -2, 3), ((2, 1), [1], -1, 3), ((0, 5), 1, -1, 3)]
    if deep: S = [((0, 3), 5, -2, 14), ((1, 1), 5, -2, 14), ((0, 4), 4, -2, 9), ((1, 2), 4, -2, 9), ((0, 5), 2, -1, 7), ((2, 1), 3, -1, 7), ((1, 3), 1, -1, 4), ((0, 6), 1, -1, 4)]
    return S

UNIONS = [[(1, 1), (1, 1)], [(0, 3), (1, 1)], [(0, 3), (0, 3)]]

def bounds(tier):
    return f'all triangulations modulo relabelling of {space(tier)} (surface, relabellings, min weight, total weight) and unions {UNIONS}; every edge in both directions; all sets of <= 3 edges with disjoint support; all flip words of length 2'

def cases(tier):
    out = []
    for (g, n), ks, lo, total in space(tier):
        for t in triangulations(g, n):
            for k in (ks if isinstance(ks, list) else range(ks)):
                zeta = len(t) * 3 // 2
                for first in range(lo, total + 1):
                    if zeta < 6 and first > lo: continue
                    out.append({'tri': [list(x) for x in labelled(t, k).triples], 'lo': lo, 'total': total, 'first': first if zeta >= 6 else None})
    for parts in UNIONS:
        for ts in product(*[triangulations(*p) for p in parts]):
            R = disjoint_union(*ts)
            for k in range(1, 2):
                out.append({'tri': [list(x) for x in R.relabel(relabelling(R.zeta, k)).triples], 'lo': -1, 'total': 4, 'first': None})
    return out

def run_case(case, ctx):
    R = Tri(case['tri'])
    T = build(R)
    ctx.check(tri_of(T) == R, 'triangulation not as given')
    moves = []
    flips = {}
    for x in R.labels():
        if not R.flippable(x):
            if case['first'] in (None, case['lo']): ctx.rejects(lambda: T.encode_flip(x), f'flip of non flippable edge {x}')
            continue
        flips[x] = T.encode_flip(x)
        moves.append(([x], flips[x]))
        if R.zeta <= 6: moves.append(([x], T.encode([x])))
    support = lambda x: {R.tri_of[x], R.tri_of[~x]}
    for r in (1, 2, 3):
        for xs in combinations([x for x in range(R.zeta) if R.flippable(x)], r):
            if len(set().union(*map(support, xs))) != 2 * r:
                continue
            for signs in (list(product((0, 1), repeat=r)) if r == 1 or R.zeta <= 6 else [(0,) * r, (1,) + (0,) * (r - 1)][:(2 if r == 2 else 1)]):
                es = [~x if s else x for x, s in zip(xs, signs)]
                moves.append((es, T.encode_multiflip(es)))
                if r > 1: moves.append((es, T.encode([set(es)])))
    targets = []
    for es, h in moves:
        Rs = [R]
        for e in es: Rs.append(Rs[-1].flip(e))
        ctx.check(tri_of(h.source_triangulation) == R, f'source of flip {es}')
        ctx.check(tri_of(h.target_triangulation) == Rs[-1], lambda: f'target of flips {es}: {h.target_triangulation!r} expected {Rs[-1].key()}')
        ctx.check(h.inverse().target_triangulation == T and h.inverse().source_triangulation == h.target_triangulation, f'inverse of flip {es} has wrong ends')
        targets.append(Rs)
        ctx.step()
    pairs = []  # Words of two flips.
    if case['first'] in (None, 0):
        for x in flips:
            for y in range(R.zeta):
                R1 = R.flip(x)
                if R1.flippable(y) and (R.zeta <= 6 or x >= 0 and y > x): pairs.append((x, y, T.encode([y, x]), R1.flip(y)))
    rels = []
    for k in range(1, 5):
        m = relabelling(R.zeta, k)
        variants = [m, {i: m[i] for i in range(R.zeta)}, {~i if i % 2 else i: m[~i if i % 2 else i] for i in range(R.zeta)}, [m[i] for i in range(R.zeta)]]
        for v in variants:
            h = T.encode_relabel_edges(v)
            ctx.check(tri_of(h.target_triangulation) == R.relabel(m), f'relabelling {v} gives the wrong triangulation')
            if k <= 2 or v is m: rels.append((m, h))
        if R.zeta <= 6: rels.append((m, T.encode([{i: m[i] for i in range(R.zeta)}])))
    ctx.rejects(lambda: T.encode_relabel_edges({i: i for i in range(R.zeta - 1)}), 'relabelling with a missing label')
    zeta = R.zeta
    cache = {}
    def image(key, C, f, R2):
        ''' The image vector of the components C under the strand map f (cached per strand). '''
        out = [0] * zeta
        for s, m in C.items():
            if (key, s) not in cache: cache[key, s] = strand_vector(R2, f(s))
            for i, x in enumerate(cache[key, s]): out[i] += m * x
        return out
    def seq(es, Rs):
        def f(s):
            for e, Ri in zip(es, Rs): s = flip_strand(Ri, e, s)
            return s
        return f
    inverses = [h.inverse() for _, h in moves]
    backs = [h.target_triangulation.encode_flip(~es[0]) if len(es) == 1 else None for es, h in moves]
    for v in vectors(R, case['lo'], case['total'], case['total']):
        if case['first'] is not None and v[0] != case['first']: continue
        C = components(R, v)
        L = T.lamination(list(v), promote=False)
        ctx.state()
        small = sum(abs(x) for x in v) <= (3 if zeta <= 6 else 2)
        P = T(list(v)) if small else L
        fr = T.lamination([Fraction(x, 3) for x in v], promote=False)
        big = T.lamination([x * BIG for x in v], promote=False)
        for j, ((es, h), Rs) in enumerate(zip(moves, targets)):
            want = image(j, C, seq(es, Rs), Rs[-1])
            got = h(P)
            ctx.step()
            ctx.equal(list(got), want, lambda: f'image of {v} under flips {es}')
            if small:
                ctx.check(got.triangulation == h.target_triangulation, 'image lies on the wrong triangulation')
                ctx.check(type(got) is type(P), lambda: f'class of image of {v} under flips {es}: {type(got)} from {type(P)}')
            ctx.equal(list(inverses[j](got)), list(v), lambda: f'flips {es} then their inverse on {v}')
            if len(es) == 1:
                if small: ctx.check(backs[j].target_triangulation == T, f'flip {es[0]} then its reverse changes the triangulation')
                ctx.equal(list(backs[j](got)), list(v), lambda: f'flip {es[0]} then {~es[0]} on {v}')
                if not (small or zeta < 6): continue
                ctx.equal(list(h(fr)), [Fraction(x, 3) for x in want], lambda: f'third of {v} under flip {es}')
                ctx.equal(list(h(big)), [x * BIG for x in want], lambda: f'large multiple of {v} under flip {es}')
        for j, (x, y, h, R2) in enumerate(pairs):
            R1 = R.flip(x)
            want = image(('p', j), C, lambda s: flip_strand(R1, y, flip_strand(R, x, s)), R2)
            ctx.equal(list(h(L)), want, lambda: f'image of {v} under flip {x} then {y}')
            ctx.step()
        for j, (m, h) in enumerate(rels):
            want = image(('r', j), C, lambda s: relabel_strand(m, s), R)
            got = h(P)
            ctx.equal(list(got), want, lambda: f'image of {v} under relabelling {m}')
            if small: ctx.equal(list(h.inverse()(got)), list(v), lambda: f'relabelling {m} and back on {v}')
            ctx.step()
        ctx.trace(len(moves) + len(pairs) + len(rels))
        ctx.outcome(f'{len(C)} components')
