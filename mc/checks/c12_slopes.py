''' C12: slopes and relative twisting about all bounded curves, against twisted images and intersection numbers in the model. '''

from fractions import Fraction

from mc.spaces import *
from mc import oriented as O
from mc import moves

BATCH = 1
# (surface, triangulations, curve length, probe length)
PLAN = {
    'quick': [((1, 1), 1, 8, 4), ((0, 4), 6, 5, 3), ((1, 2), 5, 5, 3), ((0, 5), 3, 4, 2), ((2, 1), 3, 4, 2), ((1, 3), 2, 3, 2)],
    'thorough': [((1, 1), 1, 14, 7), ((0, 4), 6, 8, 4), ((1, 2), 5, 7, 4), ((0, 5), 12, 5, 3), ((2, 1), 9, 5, 3), ((1, 3), 12, 4, 2), ((0, 6), 6, 4, 2), ((2, 2), 4, 4, 2)],
    }
UNIONS = [[(1, 1), (1, 1)], [(0, 3), (1, 1)], [(1, 1), (0, 4)]]
RANGE = 5

def bounds(tier):
    return f'every curve, probe and pair of probes of bounded length on the triangulations of {PLAN[tier]} (surface, triangulations, curve length, probe length) and {UNIONS}; twist powers -{RANGE}..{RANGE} and +-10^12'

def flat(R): return [list(x) for x in R.triples]

def cases(tier):
    out, spaces = [], []
    for (g, n), count, length, probe in PLAN[tier]:
        ts = triangulations(g, n, 60)
        for i, t in enumerate(ts[::max(1, len(ts) // count)][:count]): spaces.append((labelled(t, 1 + i % 3), length, probe))
    for parts in UNIONS: spaces.append((disjoint_union(*[triangulations(*p)[0] for p in parts]), 4, 2))
    for R, length, probe in spaces:
        E = [s for s in strands_up_to(R, length, arcs=False) if kind_of(R, s) == 'curve']
        for i in range(0, len(E), 2):
            out.append({'kind': 'slope', 'tri': flat(R), 'length': length, 'probe': probe, 'from': i, 'to': i + 2})
            out.append({'kind': 'relative', 'tri': flat(R), 'length': length, 'probe': probe, 'from': i, 'to': i + 2, 'deep': tier == 'thorough'})
    return out

def probes(R, n):
    S = strands_up_to(R, n)
    arcs = [s for s in S if s[0] != 'c']
    curves = [s for s in S if s[0] == 'c' and kind_of(R, s) == 'curve']
    return arcs[:14] + curves[:8]

def combos(R, P):
    ''' The probes and some sums of disjoint ones. '''
    out = [{s: 1} for s in P]
    pairs = [(s, t) for i, s in enumerate(P) for t in P[:i] if intersection(R, s, t) == 0]
    out += [{s: 1 + (i % 2), t: 1 + (i % 3)} for i, (s, t) in enumerate(pairs[::4])][:10]
    return out

def run_case(case, ctx):
    R = Tri(case['tri'])
    T = build(R)
    S = strands_up_to(R, case['length'], arcs=False)
    E = [s for s in S if kind_of(R, s) == 'curve']
    per = [s for s in S if kind_of(R, s) == 'peripheral']
    P = probes(R, case['probe'])
    X = combos(R, P)
    if case['from'] == 0:
        for p in per[:2]:
            C = T(strand_vector(R, p))
            for x in X[::5]:
                ctx.rejects(lambda: C.slope(T(vector(R, x))), lambda: f'slope of {x} about the peripheral {p}', (ValueError,))
                ctx.rejects(lambda: C.relative_twisting(T(vector(R, x)), T(vector(R, x))), lambda: f'relative twisting of {x} about the peripheral {p}', (ValueError,))
    for c in E[case['from']:case['to']]:
        C = T(strand_vector(R, c))
        i_of = lambda x: sum(m * intersection(R, c, s) for s, m in x.items())
        crossing = [x for x in X if i_of(x)]
        disjoint = [x for x in X if not i_of(x)]
        if case['kind'] == 'slope':
            for x in disjoint[::2]: ctx.rejects(lambda: C.slope(T(vector(R, x))), lambda: f'slope of {x} about the disjoint {c}', (ValueError,))
            ctx.rejects(lambda: C.slope(T.empty_lamination()), 'slope of the empty lamination', (ValueError,))
            ctx.rejects(lambda: C.slope(C), 'slope of the curve itself', (ValueError,))
            far = C.encode_twist(10**12)
            for x in crossing:
                vs = {}
                for n in range(-RANGE, RANGE + 1):
                    sub = O.subst(R, c, n) if n else None
                    vs[n] = vector(R, {ref.apply_substitution(R, sub, s) if n else s: m for s, m in x.items()})
                slopes = {n: C.slope(T.lamination(v, promote=False)) for n, v in vs.items()}
                name = lambda: f'slopes of the twists of {x} about {c} are {[str(slopes[n]) for n in sorted(slopes)]}'
                for n in range(-RANGE, RANGE):
                    a, b = slopes[n], slopes[n + 1]
                    if abs(a) > 1: ctx.check(b == a + 1, lambda: 'not increased by one: ' + name())
                    if abs(b) > 1: ctx.check(a == b - 1 or abs(a) <= 1, lambda: 'not decreased by one: ' + name())
                    ctx.check(a <= b, lambda: 'not monotone: ' + name())
                    ctx.step()
                ctx.check(slopes[-RANGE] < 0 or slopes[RANGE] > 0, lambda: 'does not leave zero: ' + name())
                ctx.check(sum(abs(a) <= 1 for a in slopes.values()) <= 6, lambda: 'stays in the interval: ' + name())
                for n in (-RANGE, 0, 2):
                    s = slopes[n]
                    ctx.equal((s * i_of(x)).denominator in (1, 2), True, lambda: 'not a multiple of half a crossing: ' + name())
                    ctx.equal(C.slope(T.lamination([Fraction(y, 3) for y in vs[n]], promote=False)), s, lambda: f'slope of a third of the twist of {x}')
                    ctx.equal(C.slope(T.lamination([5**40 * y for y in vs[n]], promote=False)), s, lambda: f'slope of a multiple of the twist of {x}')
                    ctx.equal(C.slope(T(vs[n])), s, lambda: f'slope of the promoted twist of {x}')
                s = C.slope(far(T.lamination(vs[RANGE], promote=False)))
                ctx.check(abs(s - slopes[RANGE] - 10**12) <= 4, lambda: f'slope {s} of a large twist of {x} about {c}')
                if slopes[RANGE] > 1: ctx.equal(s, slopes[RANGE] + 10**12, lambda: f'slope of a large twist of {x} about {c}')
                s = C.slope(far.inverse()(T.lamination(vs[-RANGE], promote=False)))
                ctx.check(abs(s - slopes[-RANGE] + 10**12) <= 4, lambda: f'slope {s} of a large left twist of {x} about {c}')
                if slopes[-RANGE] < -1: ctx.equal(s, slopes[-RANGE] - 10**12, lambda: f'slope of a large left twist of {x} about {c}')
                ctx.state(); ctx.trace(2 * RANGE + 1)
                ctx.outcome('slope')
            continue
        # Relative twisting.
        for x in disjoint[:2]:
            for y in crossing[:2]:
                ctx.rejects(lambda: C.relative_twisting(T(vector(R, x)), T(vector(R, y))), lambda: f'relative twisting of {x} and {y} about {c}', (ValueError,))
                ctx.rejects(lambda: C.relative_twisting(T(vector(R, y)), T(vector(R, x))), lambda: f'relative twisting of {y} and {x} about {c}', (ValueError,))
        bs = crossing[::3][:3 if not case['deep'] else 12]
        cs = crossing[1::4][:3 if not case['deep'] else 10]
        twist = lambda x, n: {ref.apply_substitution(R, O.subst(R, c, n), s) if n else s: m for s, m in x.items()}
        tw = C.encode_twist()
        L = moves.letters(R, (1,))
        maps = [moves.encode(R, [L[(case['from'] + 7 * j) % len(L)]]) for j in range(3 if case['deep'] else 1)]
        for b in bs:
            for d in cs:
                ab, ac = i_of(b), i_of(d)
                if ab * ac > 60: continue
                # The model: the offset of the linear parts of n -> i(T^n b, d).
                f = lambda n: ref.intersection_multi(R, twist(b, n), d)
                N = f(0) // (ab * ac) + 4
                assert all(f(s * (N + 1)) - f(s * N) == ab * ac for s in (1, -1)), 'not linear yet'
                off = [f(s * N) - N * ab * ac for s in (1, -1)]
                want = Fraction(off[1] - off[0], 2 * ab * ac)
                B, D = T(vector(R, b)), T(vector(R, d))
                got = C.relative_twisting(B, D)
                ctx.equal(got, want, lambda: f'twisting of {b} about {c} relative to {d}')
                ctx.equal(C.relative_twisting(D, B), -want, lambda: f'twisting of {d} about {c} relative to {b}')
                for k in (-3, 1, 4) if case['deep'] else (-2, 3):
                    ctx.equal(C.relative_twisting(T(vector(R, twist(b, k))), D), want - k, lambda: f'twisting of {b} twisted {k} times about {c} relative to {d}')
                    ctx.equal(C.relative_twisting(B, T(vector(R, twist(d, k)))), want + k, lambda: f'twisting of {b} about {c} relative to {d} twisted {k} times')
                for h, _ in maps:
                    ctx.equal(h(C).relative_twisting(h(B), h(D)), want, lambda: f'twisting of the images of {b} about {c} relative to {d} under {h.package()}')
                ctx.state(); ctx.trace(); ctx.step(8)
                ctx.outcome('relative')
