''' C05: half twists about all bounded (multi)arcs against explicit half twist substitution in the model. '''

from fractions import Fraction
from itertools import combinations

from mc.spaces import *
from mc import oriented as O
from mc import moves
from mc.checks.c04_twists import probes, POWERS

BATCH = 1
PLAN = {
    'quick': [((0, 3), 2, 4, 6), ((0, 4), 4, 3, 3), ((1, 2), 3, 3, 3), ((0, 5), 2, 2, 2), ((1, 3), 1, 2, 2), ((0, 6), 1, 1, 2)],
    'thorough': [((0, 3), 2, 9, 9), ((0, 4), 6, 6, 4), ((1, 2), 5, 6, 4), ((0, 5), 12, 4, 3), ((1, 3), 20, 3, 2), ((0, 6), 10, 4, 2), ((2, 2), 6, 3, 2), ((0, 7), 4, 3, 2)],
    }
UNIONS = [[(0, 3), (1, 1)], [(0, 3), (0, 4)]]
BIG = [10**18, 10**18 + 1, -10**18 - 1]

def bounds(tier):
    return f'every arc of bounded length (distinct and equal ends) and every pair and triple of disjoint arcs on the triangulations of {PLAN[tier]} (surface, triangulations, arc length, probe length) and {UNIONS}, powers {POWERS + BIG + [0]}, all bounded arcs and curves as probes'

def flat(R): return [list(x) for x in R.triples]

def cases(tier):
    out, spaces = [], []
    for (g, n), count, length, probe in PLAN[tier]:
        ts = triangulations(g, n, 60)
        for i, t in enumerate(ts[::max(1, len(ts) // count)][:count]): spaces.append((labelled(t, 1 + i % 3), length, probe))
    for parts in UNIONS: spaces.append((disjoint_union(*[triangulations(*p)[0] for p in parts]), 2, 2))
    for R, length, probe in spaces:
        A = arcs(R, length)
        good = [s for s in A if distinct(R, s)]
        for i in range(0, len(good), 3): out.append({'kind': 'single', 'tri': flat(R), 'length': length, 'probe': probe, 'from': i, 'to': i + 3})
        sets = [p for k in (2, 3) for p in systems(R, A, k)]
        ok = [p for p in sets if ends_distinct(R, [A[i] for i in p])]
        bad = [p for p in sets if not ends_distinct(R, [A[i] for i in p])]
        if tier == 'quick': ok, bad = ok[::max(1, len(ok) // 24)], bad[::max(1, len(bad) // 40)]
        for i in range(0, len(ok), 4): out.append({'kind': 'multi', 'tri': flat(R), 'length': length, 'probe': probe, 'sets': ok[i:i+4]})
        for i in range(0, len(bad), 40): out.append({'kind': 'reject', 'tri': flat(R), 'length': length, 'sets': bad[i:i+40], 'loops': not i})
        if not bad: out.append({'kind': 'reject', 'tri': flat(R), 'length': length, 'sets': [], 'loops': True})
    return out

def arcs(R, length): return [s for s in strands_up_to(R, length) if s[0] != 'c']
def distinct(R, s):
    a, b = ref.arc_ends(R, s)
    return a != b
def ends_distinct(R, S):
    ends = [v for s in S for v in ref.arc_ends(R, s)]
    return len(set(ends)) == len(ends)

def neighbourhood_curve(R, s):
    ''' The boundary of a neighbourhood of an arc with distinct ends. '''
    word, S, e = O.to_edge(R, s)
    c = moves.edge_curve(S, e)
    states = [R]
    for x in word: states.append(states[-1].flip(x))
    for x, U in zip(reversed(word), reversed(states)): c = ref.flip_strand(U, ~x, c)
    return c

def run_case(case, ctx):
    R = Tri(case['tri'])
    T = build(R)
    K = curver.kernel
    A = arcs(R, case['length'])
    if case['kind'] == 'reject':
        for p in case['sets']:
            L = T(vector(R, {A[i]: 1 for i in p}))
            for k in (1, -2): ctx.rejects(lambda: L.encode_halftwist(k), lambda: f'half twist about {[A[i] for i in p]}, which share ends', (ValueError,))
            ctx.equal(L.has_distinct_endpoints(), False, lambda: f'has_distinct_endpoints of {[A[i] for i in p]}')
            ctx.state(); ctx.trace()
        if case['loops']:
            for s in A:
                L = T(strand_vector(R, s))
                ctx.equal(L.has_distinct_endpoints(), distinct(R, s), lambda: f'has_distinct_endpoints of {s}')
                ctx.equal(len(L.vertices()), len(set(ref.arc_ends(R, s))), lambda: f'vertices of {s}')
                if not distinct(R, s):
                    for k in (1, 2, -1, 0): ctx.rejects(lambda: L.encode_halftwist(k), lambda: f'half twist about {s}, which joins a vertex to itself', (ValueError,))
                else:
                    D = T([2 * x for x in strand_vector(R, s)])
                    ctx.rejects(lambda: D.encode_halftwist(), lambda: f'half twist about two copies of {s}', (ValueError,))
                ctx.state(); ctx.trace()
        return
    P = probes(R, case['probe'])
    vec = {s: strand_vector(R, s) for s in P}
    raw = {s: T.lamination(vec[s], promote=False) for s in P}
    if case['kind'] == 'single':
        good = [s for s in A if distinct(R, s)]
        for a in good[case['from']:case['to']]:
            arc = T(strand_vector(R, a))
            ht = {k: arc.encode_halftwist(k) if k != 1 else arc.encode_halftwist() for k in POWERS + BIG + [0]}
            c = neighbourhood_curve(R, a)
            B = arc.boundary()
            ctx.equal(list(B), strand_vector(R, c), lambda: f'boundary of {a}')
            images = {s: {0: s} for s in P}
            for s in P:
                for k in range(1, 8): images[s][k] = O.half_about(R, a, 1, images[s][k - 1])
                for k in range(-1, -5, -1): images[s][k] = O.half_about(R, a, -1, images[s][k + 1])
            for k in POWERS + [0]:
                h = ht[k]
                ctx.check(type(h) is K.MappingClass and h.source_triangulation == T and h.target_triangulation == T, lambda: f'ends of the half twist about {a} to the power {k}')
                for s in P:
                    want = strand_vector(R, images[s][k])
                    ctx.equal(list(h(raw[s])), want, lambda: f'half twist about {a} to the power {k} on {s}')
                    ctx.step()
                for s in P[k % 3::7]:
                    want = strand_vector(R, images[s][k])
                    ctx.equal(list(h(T.lamination([Fraction(x, 3) for x in vec[s]], promote=False))), [Fraction(x, 3) for x in want], lambda: f'half twist about {a} to the power {k} on a third of {s}')
                if k in (1, -1, 3, -4):
                    for i in range(R.zeta):
                        o = O.half_about(R, a, k, ('e', i), oriented=True)
                        ctx.check(O.homologous(R, list(h(T.edge_homology(i))), O.chain(R, o)), lambda: f'homology of edge {i} under the half twist about {a} to the power {k}')
            # Its square is the twist about the boundary, it fixes the arc and swaps its ends.
            ctx.check(ht[1] * ht[1] == (B.encode_twist() if kind_of(R, c) == 'curve' else T.id_encoding()), lambda: f'square of the half twist about {a}')
            ctx.check(ht[2] == B.encode_twist() and ht[-4] == B.encode_twist(-2), lambda: f'even powers of the half twist about {a}')
            ctx.equal(list(ht[1](arc)), strand_vector(R, a), 'half twist moves its arc')
            ends = ref.arc_ends(R, a)
            vm = {tuple(y.label for y in v): tuple(y.label for y in w) for v, w in ht[1].vertex_map().items()}
            index = {frozenset(v): i for i, v in enumerate(R.vertices())}
            for v, w in vm.items():
                i, j = index[frozenset(v)], index[frozenset(w)]
                ctx.equal(j, ends[0] + ends[1] - i if i in ends else i, lambda: f'image of the vertex {v} under the half twist about {a}')
            for j, k in ((1, 2), (-1, 3), (3, -4), (-1, -1), (7, -4)):
                ctx.check(ht[j] * ht[k] == (ht[j + k] if j + k in ht else arc.encode_halftwist(j + k)), lambda: f'half twists about {a} to the powers {j} and {k} do not add')
            # Large powers.
            for k in BIG:
                m, r = divmod(k, 2)
                Tm = B.encode_twist(m)
                for s in P[::3]:
                    start = strand_vector(R, images[s][r])
                    want = list(Tm(T.lamination(start, promote=False)))
                    got = ht[k](raw[s])
                    ctx.equal(list(got), want, lambda: f'half twist about {a} to the power {k} on {s}')
                    ctx.equal(list(ht[k].inverse()(got)), vec[s], lambda: f'half twist about {a} to the power {k} and back on {s}')
            ctx.state(); ctx.trace()
            ctx.outcome('arc')
        return
    for p in case['sets']:
        M = [A[i] for i in p]
        L = T(vector(R, {a: 1 for a in M}))
        ctx.equal(L.has_distinct_endpoints(), True, lambda: f'has_distinct_endpoints of {M}')
        for k in (1, -1, 2, -3):
            h = L.encode_halftwist(k)
            for s in P[k % 2::2]:
                t = s
                for a in M:
                    for _ in range(abs(k)): t = O.half_about(R, a, 1 if k > 0 else -1, t)
                ctx.equal(list(h(raw[s])), strand_vector(R, t), lambda: f'half twist about {M} to the power {k} on {s}')
                ctx.step()
            if k in (1, -3):
                prod = T.id_encoding()
                for a in M: prod = prod * T(strand_vector(R, a)).encode_halftwist(k)
                ctx.check(prod == h, lambda: f'half twist about {M} to the power {k} is not the product')
        ctx.state(); ctx.trace()
        ctx.outcome(f'{len(M)} arcs')
