''' C04: Dehn (multi)twists about all bounded curves, powers and laminations, against letter substitution. '''

from fractions import Fraction

from mc.spaces import *
from mc import oriented as O

BATCH = 1
# (surface, triangulations, curve length, probe length)
PLAN = {
    'quick': [((1, 1), 1, 11, 5), ((0, 4), 6, 7, 3), ((1, 2), 5, 6, 3), ((0, 5), 4, 6, 2), ((2, 1), 6, 5, 2), ((1, 3), 3, 4, 2), ((2, 2), 1, 3, 2)],
    'thorough': [((1, 1), 1, 15, 8), ((0, 4), 6, 9, 4), ((1, 2), 5, 8, 4), ((0, 5), 12, 6, 3), ((2, 1), 9, 6, 3), ((1, 3), 20, 4, 2), ((0, 6), 10, 5, 2), ((2, 2), 6, 4, 2)],
    }
UNIONS = [[(1, 1), (1, 1)], [(0, 3), (1, 1)], [(1, 1), (0, 4)]]
POWERS = [1, -1, 2, -2, 3, -4, 7]
BIG = [10**18, -10**18 - 1]

def bounds(tier):
    return f'every curve of bounded length (essential and peripheral) and pair of disjoint curves on the triangulations of {PLAN[tier]} (surface, triangulations, curve length, probe length) and {UNIONS}, powers {POWERS + BIG + [0]}, all bounded arcs and curves as probes'

def flat(R): return [list(x) for x in R.triples]

def cases(tier):
    out = []
    spaces = []
    for (g, n), count, length, probe in PLAN[tier]:
        ts = triangulations(g, n, 60)
        for i, t in enumerate(ts[::max(1, len(ts) // count)][:count]): spaces.append((labelled(t, 1 + i % 3), length, probe))
    for parts in UNIONS: spaces.append((disjoint_union(*[triangulations(*p)[0] for p in parts]), 4, 2))
    for R, length, probe in spaces:
        S = strands_up_to(R, length, arcs=False)
        E = [s for s in S if kind_of(R, s) == 'curve']
        for i in range(0, len(E), 2): out.append({'kind': 'single', 'tri': flat(R), 'length': length, 'probe': probe, 'from': i, 'to': i + 2, 'deep': tier == 'thorough'})
        pairs = [p for p in systems(R, S, 2)]
        pairs = [p for p in pairs if any(kind_of(R, S[i]) == 'curve' for i in p)]
        if tier == 'quick': pairs = pairs[::max(1, len(pairs) // 16)]
        for i in range(0, len(pairs), 4): out.append({'kind': 'multi', 'tri': flat(R), 'length': length, 'probe': probe, 'pairs': pairs[i:i+4]})
        out.append({'kind': 'trivial', 'tri': flat(R), 'length': length, 'probe': probe})
    return out

_cache = {}
def probes(R, n):
    key = (R.triples, n)
    if key not in _cache:
        S = strands_up_to(R, n)
        short = [s for s in S if s[0] == 'e' or len(s[1]) <= 2]
        cap = 24 if R.zeta <= 6 else 20
        arcs = [s for s in S if s[0] != 'c']
        curves = [s for s in S if s[0] == 'c']
        _cache[key] = arcs[:cap - 6] + curves[:max(6, cap - len(arcs))]
    return _cache[key]

def stable(R, f, c, s, sign, limit=40):
    ''' n0 and the vectors of f(n) and f(n0 + 1) once n -> f(sign * n) is linear with slope i(c, s) c. '''
    i = intersection(R, c, s)
    step = [i * x for x in strand_vector(R, c)]
    prev = strand_vector(R, f(0))
    for n in range(1, limit):
        cur = strand_vector(R, f(sign * n))
        if [max(b, 0) - max(a, 0) for a, b in zip(prev, cur)] == step and i: return n, cur, step
        if not i: return n, cur, step
        prev = cur
    raise AssertionError('model: twisting never becomes linear')

def run_case(case, ctx):
    R = Tri(case['tri'])
    T = build(R)
    K = curver.kernel
    S = strands_up_to(R, case['length'], arcs=False)
    P = probes(R, case['probe'])
    vec = {s: strand_vector(R, s) for s in P}
    raw = {s: T.lamination(vec[s], promote=False) for s in P}
    if case['kind'] == 'trivial':
        for c in S:
            if kind_of(R, c) != 'peripheral': continue
            C = T(strand_vector(R, c))
            for k in (1, -3, 10**20):
                h = C.encode_twist(k)
                for s in P[::2]: ctx.equal(list(h(raw[s])), vec[s], lambda: f'twist along the peripheral {c} to the power {k} on {s}')
            ctx.check(C.encode_twist().is_identity(), 'peripheral twist is not the identity')
            ctx.state(); ctx.trace()
        for h in (T(strand_vector(R, c)).encode_twist(0) for c in S[:6]):
            ctx.check(h.source_triangulation == T and h.target_triangulation == T, 'ends of the trivial twist')
            for s in P: ctx.equal(list(h(raw[s])), vec[s], lambda: f'zeroth power of a twist on {s}')
            ctx.outcome('trivial')
        return
    if case['kind'] == 'single':
        E = [s for s in S if kind_of(R, s) == 'curve']
        for c in E[case['from']:case['to']]:
            C = T(strand_vector(R, c))
            ctx.check(type(C) is K.Curve, 'not a curve')
            tw = {k: C.encode_twist(k) if k != 1 else C.encode_twist() for k in POWERS + BIG}
            ctx.outcome('curve')
            for k in POWERS:
                h = tw[k]
                ctx.check(type(h) is K.MappingClass and h.source_triangulation == T and h.target_triangulation == T, lambda: f'ends of the twist along {c} to the power {k}')
                sc = O.subst(R, c, k)
                for s in P:
                    want = strand_vector(R, ref.apply_substitution(R, sc, s))
                    ctx.equal(list(h(raw[s])), want, lambda: f'twist along {c} to the power {k} on {s}')
                    ctx.step()
                for s in P[k % 3::7]:
                    want = strand_vector(R, ref.apply_substitution(R, sc, s))
                    img = h(T(vec[s]))
                    ctx.check(type(img) is type(T(vec[s])), lambda: f'class of the image of {s}')
                    ctx.equal(list(h(T.lamination([Fraction(x, 3) for x in vec[s]], promote=False))), [Fraction(x, 3) for x in want], lambda: f'twist along {c} to the power {k} on a third of {s}')
                    ctx.equal(list(h(T.lamination([x * 7**30 for x in vec[s]], promote=False))), [x * 7**30 for x in want], lambda: f'twist along {c} to the power {k} on a multiple of {s}')
                if k in (1, -2):
                    for i in range(R.zeta):
                        ctx.check(O.homologous(R, list(h(T.edge_homology(i))), O.chain(R, O.twist(R, c, k, ('e', i)))), lambda: f'homology of edge {i} under the twist along {c} to the power {k}')
                # Sums of disjoint strands.
                for s, t in list(zip(P, P[1:]))[::5]:
                    if intersection(R, s, t) == 0:
                        want = [2 * a + b for a, b in zip(strand_vector(R, ref.apply_substitution(R, sc, s)), strand_vector(R, ref.apply_substitution(R, sc, t)))]
                        ctx.equal(list(h(T.lamination([2 * a + b for a, b in zip(vec[s], vec[t])], promote=False))), want, lambda: f'twist along {c} to the power {k} on 2 {s} + {t}')
            # The moves used are accelerated for large powers: compare with the stable model behaviour.
            for k in BIG:
                sign = 1 if k > 0 else -1
                for s in P[::3]:
                    n, at, step = stable(R, lambda m: ref.apply_substitution(R, O.subst(R, c, m), s) if m else s, c, s, sign)
                    i = intersection(R, c, s)
                    want = [x + (abs(k) - n) * y for x, y in zip(at, step)] if i else vec[s]
                    got = tw[k](raw[s])
                    ctx.equal(list(got), want, lambda: f'twist along {c} to the power {k} on {s}')
                    ctx.equal(list(tw[k].inverse()(got)), vec[s], lambda: f'twist along {c} to the power {k} and back on {s}')
                    for j in (3, -2):
                        ctx.equal(list(tw[k](tw.get(j, tw[7])(raw[s]))) if j in tw else None, list(C_power(C, k + j)(raw[s])) if j in tw else None, lambda: f'twists along {c} to the powers {j} and {k} on {s}')
                    ctx.step()
            for j, k in ((1, 2), (3, -4), (-2, 7), (-1, 1)):
                a = tw[j] * tw[k]
                b = C.encode_twist(j + k)
                ctx.check(a == b, lambda: f'twists along {c} to the powers {j} and {k} do not add')
                ctx.check(tw[1]**(j + k) == b, lambda: f'power {j + k} of the twist along {c}')
            ctx.check(list(tw[2](C)) == list(C), 'twist moves its curve')
            ctx.state(); ctx.trace()
        return
    for p in case['pairs']:
        for mults in ((1, 1), (2, 1), (1, 3)):
            M = {S[i]: m for i, m in zip(p, mults)}
            L = T(vector(R, M))
            for k in (1, -2) if mults != (2, 1) else (1, -1, 3):
                h = L.encode_twist(k)
                subs = [O.subst(R, c, m * k) for c, m in M.items() if kind_of(R, c) == 'curve']
                for s in P[k % 2::2]:
                    t = s
                    for sc in subs: t = ref.apply_substitution(R, sc, t)
                    ctx.equal(list(h(raw[s])), strand_vector(R, t), lambda: f'twist along {M} to the power {k} on {s}')
                    ctx.step()
                if k == -2 or mults == (2, 1):
                    prod = h.source_triangulation.id_encoding()
                    for c, m in M.items(): prod = prod * T(strand_vector(R, c)).encode_twist(m * k)
                    ctx.check(prod == h, lambda: f'twist along {M} to the power {k} is not the product of the twists')
            ctx.state(); ctx.trace()
            ctx.outcome('/'.join(sorted(kind_of(R, c) for c in M)))

_powers = {}
def C_power(C, k):
    key = (C.triangulation.sig(), tuple(C), k)
    if key not in _powers:
        if len(_powers) > 200: _powers.clear()
        _powers[key] = C.encode_twist(k)
    return _powers[key]
