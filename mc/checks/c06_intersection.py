''' C06: geometric intersection numbers against counting of linked lifts in the model. '''

from mc.spaces import *
from itertools import product

PLAN = {
    'quick': [((0, 3), (8, 8), 2), ((1, 1), (9, 9), 2), ((0, 4), (4, 6), 2), ((1, 2), (3, 5), 2), ((2, 1), (1, 4), 1), ((0, 5), (1, 4), 1)],
    'thorough': [((0, 3), (12, 12), 2), ((1, 1), (14, 14), 2), ((0, 4), (8, 10), 2), ((1, 2), (6, 8), 2), ((2, 1), (5, 6), 2), ((0, 5), (4, 6), 2), ((1, 3), (3, 5), 2)],
    }
UNIONS = [[(1, 1), (1, 1)], [(0, 3), (1, 1)]]
CHUNK = 12

def bounds(tier):
    return f'all ordered pairs of strands up to the given word length on all triangulations (surface, (arc, curve) length, max size of systems paired with every strand) {PLAN[tier]}; unions {UNIONS}; pairs twisted by large powers'

def cases(tier):
    out = []
    spaces = []
    for (g, n), length, size in PLAN[tier]:
        for i, t in enumerate(triangulations(g, n)): spaces.append((labelled(t, 1 + i % 4), length, size))
    for parts in UNIONS:
        for ts in product(*[triangulations(*p) for p in parts]):
            R = disjoint_union(*ts)
            spaces.append((R.relabel(relabelling(R.zeta, 1)), (2, 4), 2))
    for R, length, size in spaces:
        tri = [list(x) for x in R.triples]
        N = len(pool(R, *length))
        for i in range(0, N, CHUNK):
            out.append({'kind': 'pairs', 'tri': tri, 'length': length, 'size': size, 'from': i, 'to': i + CHUNK})
        if size > 1 or R.zeta <= 9: out.append({'kind': 'heavy', 'tri': tri, 'count': 12 if tier == 'quick' else 40})
    return out

def run_case(case, ctx):
    R = Tri(case['tri'])
    T = build(R)
    if case['kind'] == 'pairs':
        S = pool(R, *case['length'])
        L = [T(strand_vector(R, s)) for s in S]
        N = len(S)
        chunk = range(case['from'], min(case['to'], N))
        I = {}
        for i in chunk:
            for j in range(N):
                I[i, j] = intersection(R, S[i], S[j])
                ctx.equal(L[i].intersection(L[j]), I[i, j], lambda: f'intersection of {list(L[i])} and {list(L[j])}')
                ctx.state(); ctx.trace()
                ctx.outcome(f'i={min(I[i, j], 6)}')
            # Unpromoted, scaled and several arguments.
            ctx.equal(L[i].intersection(), 0, 'intersection with nothing')
            ctx.equal(L[i].intersection(*L), sum(I[i, j] for j in range(N)), lambda: f'intersection of {list(L[i])} with everything')
            raw = [T.lamination([3 * x for x in x], promote=False) for x in L]
            for j in range(0, N, 3):
                ctx.equal(L[i].intersection(raw[j]), 3 * I[i, j], lambda: f'intersection of {list(L[i])} and thrice {list(L[j])}')
                ctx.equal((5 * L[i]).intersection(L[j], L[j]), 10 * I[i, j], lambda: f'intersection of 5 times {list(L[i])} with two copies of {list(L[j])}')
            c = L[i]
            ctx.equal(c.no_common_component(L[(i + 1) % N]), N > 1, 'no_common_component of different strands')
            ctx.equal(c.no_common_component(c), False, 'no_common_component of a strand with itself')
        if case['size'] >= 2:
            D = disjointness(R, S)
            for i in chunk:
                for j in range(i + 1, N):
                    if (i, j) not in D: continue
                    m = 1 + (i + j) % 3
                    C = T(vector(R, {S[i]: m, S[j]: 2}))
                    step = 1 if R.zeta < 6 else 3
                    for k in range((i + j) % step, N, step):
                        want = m * I[i, k] + 2 * intersection(R, S[j], S[k])
                        ctx.equal(C.intersection(L[k]), want, lambda: f'intersection of {list(C)} and {list(L[k])}')
                        ctx.equal(L[k].intersection(C), want, lambda: f'intersection of {list(L[k])} and {list(C)}')
                        ctx.state(); ctx.trace(2)
                    ctx.equal(C.intersection(C), 0, lambda: f'self intersection of {list(C)}')
                    ctx.equal(C.no_common_component(L[i]), False, lambda: f'no_common_component({list(C)}, {list(L[i])})')
                    ctx.equal(L[i].no_common_component(C), False, lambda: f'no_common_component({list(L[i])}, {list(C)})')
        return
    S = strands_up_to(R, 5 if R.zeta <= 6 else 4)
    curves = [s for s in S if kind_of(R, s) == 'curve']
    done = 0
    for a in curves[:4]:
        for b in curves[:6]:
            if intersection(R, a, b) == 0: continue
            for i, s in enumerate(S[::3]):
                t = S[(7 * i + 2) % len(S)]
                for k in (6, -9):
                    # i(T_a^k s, T_a^k t) = i(s, t) and i(T_a^k s, t) by counting.
                    fs = ref.twist_multi(R, {a: 1}, k, {s: 1})
                    ft = ref.twist_multi(R, {a: 1}, k, {t: 1})
                    A, B, C = T(vector(R, fs)), T(vector(R, ft)), T(strand_vector(R, t))
                    ctx.equal(A.intersection(B), intersection(R, s, t), lambda: f'intersection of {list(A)} and {list(B)}')
                    want = ref.intersection_multi(R, fs, {t: 1})
                    ctx.equal(A.intersection(C), want, lambda: f'intersection of {list(A)} and {list(C)}')
                    ctx.equal(C.intersection(A), want, lambda: f'intersection of {list(C)} and {list(A)}')
                    ctx.state(3); ctx.trace(3); ctx.step(2)
                    ctx.outcome('heavy')
                    done += 1
                    if done >= case['count']: return
