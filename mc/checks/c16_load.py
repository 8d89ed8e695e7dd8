''' C16: the loaded surfaces and their generators against the documented arrangement, in the reference model, and every short relation between two generators. '''

from itertools import combinations

from mc.spaces import *
from mc import oriented as O, surgery

BATCH = 1
GRID = {'quick': (6, 7), 'thorough': (12, 14)}
RELATIONS = {'quick': [(0, 3), (0, 4), (0, 5), (0, 6), (0, 7), (1, 1), (1, 2), (1, 3), (1, 4), (2, 1), (2, 2), (2, 3), (3, 1), (3, 2), (4, 1), (4, 2)],
    'thorough': [(0, n) for n in range(3, 11)] + [(1, n) for n in range(1, 8)] + [(2, n) for n in range(1, 6)] + [(3, n) for n in range(1, 5)] + [(4, n) for n in range(1, 4)] + [(5, n) for n in range(1, 3)] + [(6, 1)]}
NAMED = ['S_0_4', 'S_1_1', 'S_1_2', 'S_1_2p', 'S_2_1', 'S_3_1', 'S_4_1', 'S_5_1'] + [f'SB_{n}' for n in range(3, 13)]
INVALID = [(0, 0), (0, 1), (0, 2), (1, 0), (2, 0), (5, 0), (-1, 4), (-1, 10), (0, -3), (3, -1), (-2, -2), ('S_1_3x',), ('S_9_9',), ('SB_',), ('SB_x',), ('SB_4x',), ('xSB_4',), ('SB_2',), ('SB_0',), ('',), (), (1, 2, 3), (1.5, 2), (1, '2'), (None, 1)]

def bounds(tier):
    return f'every (g, n) with g <= {GRID[tier][0]} and n <= {GRID[tier][1]}: topology, intersection numbers of all pairs and complements; every commutation, braid and length four relation of two generators and the chain relations on {RELATIONS[tier]}; named surfaces {NAMED}; invalid requests {INVALID}'

def cases(tier):
    out = []
    G, N = GRID[tier]
    for g in range(G + 1):
        for n in range(1, N + 1):
            if 6 * g + 3 * n - 6 >= 3: out.append({'kind': 'arrangement', 'g': g, 'n': n})
    for g, n in RELATIONS[tier]:
        k = max(1, (2 * g + n) // 3)
        for i in range(k): out.append({'kind': 'relations', 'g': g, 'n': n, 'part': i, 'of': k})
        if g: out.append({'kind': 'chains', 'g': g, 'n': n})
    for name in NAMED: out.append({'kind': 'named', 'name': name})
    out.append({'kind': 'invalid'})
    return out

def generators(S, ctx):
    ''' (R, {name: strand}). '''
    R = tri_of(S.triangulation)
    out = {}
    for source in (S.curves, S.arcs):
        for name, x in source.items():
            comps = ref.components(R, list(x))
            ctx.equal(sorted(comps.values()), [1], lambda: f'components of {name}')
            [s] = comps
            ctx.equal(kind_of(R, s), 'curve' if source is S.curves else 'arc', lambda: f'kind of {name}')
            out[name] = s
    return R, out

def expected(g, n):
    ''' The names, and the pairs of curves meeting once. '''
    curves, pairs = [], set()
    if g:
        curves = [f'a_{i}' for i in range(g)] + [f'b_{i}' for i in range(g)] + [f'c_{i}' for i in range(g - 1)] + [f'd_{i}' for i in range(1, g)] + [f'p_{i}' for i in range(1, n)]
        pairs |= {(f'a_{i}', f'b_{i}') for i in range(g)} | {(f'b_{i}', f'c_{i}') for i in range(g - 1)} | {(f'b_{i+1}', f'c_{i}') for i in range(g - 1)}
        pairs |= {(f'b_{i}', f'd_{i}') for i in range(1, g)} | {(f'b_{g-1}', f'p_{i}') for i in range(1, n)}
    arcs = [f's_{i}' for i in range(n)] if n > 1 else []
    if g and n > 1:
        pairs |= {(f'p_{i}', f's_{i}') for i in range(1, n)} | {(f'a_{g-1}', 's_0')}
        if g > 1: pairs |= {(f'c_{g-2}', 's_0'), (f'd_{g-1}', 's_0')}
    return curves, arcs, pairs

def arrangement(case, ctx):
    g, n = case['g'], case['n']
    S = curver.load(g, n)
    ctx.check(S.triangulation.is_connected(), 'not connected')
    R, st = generators(S, ctx)
    [(g2, n2, chi)] = R.surface().values()
    ctx.equal((g2, n2), (g, n), 'genus and punctures')
    curves, arcs, pairs = expected(g, n)
    ctx.equal(sorted(S.curves), sorted(curves), 'names of the curves')
    ctx.equal(sorted(S.arcs), sorted(arcs), 'names of the arcs')
    ctx.equal(sorted(S.pos_mapping_classes), sorted(curves + arcs), 'names of the generators')
    ctx.equal(len(set(st.values())), len(st), 'number of different curves and arcs')
    for x, y in combinations(sorted(st), 2):
        want = 1 if (x, y) in pairs or (y, x) in pairs else 0
        ctx.equal(ref.intersection(R, st[x], st[y]), want, lambda: f'crossings of {x} and {y}')
        ctx.step()
    # The arcs join the punctures cyclically.
    if arcs:
        ends = [arc_ends_of(R, st[s]) for s in arcs]
        if n > 2:
            ctx.check(all(len(e) == 2 for e in ends) and all(len(ends[i] & ends[(i + 1) % n]) == 1 for i in range(n)), 'the arcs do not join consecutive punctures')
            if n > 3: ctx.check(all(not ends[i] & ends[j] for i in range(n) for j in range(i) if (i - j) % n not in (1, n - 1)), 'two arcs that are not consecutive share a puncture')
        else: ctx.check(all(len(e) == 2 for e in ends), 'the arcs do not join different punctures')
        if g == 0 and n > 3:  # The arcs bound two discs without punctures.
            pieces = surgery.regions(R, [st[s] for s in arcs])
            ctx.equal(sorted((r.genus, len(r.punctures), len(r.cycles), r.cycles[0][2]) for r in pieces), [(0, 0, 1, n)] * 2, 'complement of the cycle of arcs')
    for c in curves: ctx.equal(surgery.pieces(R, [st[c]]), [(g - 1, n + 2, 2)], lambda: f'complement of {c}')
    def annulus(x, y):
        got = surgery.pieces(R, [st[x], st[y]])
        ctx.equal(got, sorted([(0, 3, 2), (g - 1, n + 1, 2)]), lambda: f'complement of {x} and {y}')
    def pants(x, y, z):
        got = surgery.pieces(R, [st[x], st[y], st[z]])
        ctx.check((0, 3, 3) in got, lambda: f'{x}, {y} and {z} do not bound a pair of pants: {got}')
    if g:
        row = [f'a_{g-1}'] + [f'p_{i}' for i in range(1, n)] + ([f'd_{g-1}'] if g > 1 else [])
        for x, y in zip(row, row[1:]): annulus(x, y)
        top = ['a_0'] + [f'd_{i}' for i in range(1, g)]
        for i in range(g - 1):
            pants(f'a_{i}', f'c_{i}', f'a_{i+1}')
            pants(top[i], f'c_{i}', top[i+1])
        # The arc s_i lies in the annuli on the two sides of the curve it crosses.
        for i in range(1, n):
            own = {}
            for k, (x, y) in enumerate(zip(row, row[1:])):
                for r in surgery.regions(R, [st[x], st[y]]):
                    if r.genus == 0 and len(r.punctures) == 1 and len(r.cycles) == 2 and (g > 1 or n > 2): own[k] = r.punctures[0]
            if g > 1 and n > 2: ctx.equal(arc_ends_of(R, st[f's_{i}']), {own[i-1], own[i]}, lambda: f'ends of s_{i}')
    # Each half twist exchanges the ends of its arc and each twist fixes every puncture.
    for name, h in S.pos_mapping_classes.items():
        perm = {R.vertex_of(min(v)): R.vertex_of(min(w)) for v, w in h.vertex_map().items()}
        want = {v: v for v in range(len(R.vertices()))}
        if name in arcs:
            a, b = sorted(arc_ends_of(R, st[name]))
            want[a], want[b] = b, a
        ctx.equal(perm, want, lambda: f'permutation of the punctures by {name}')
    ctx.state(); ctx.trace(); ctx.outcome(f'genus {min(g, 4)}')

def arc_ends_of(R, s): return set(ref.arc_ends(R, s))

def model_images(R, st, arcs, word):
    out = [('e', i) for i in range(R.zeta)]
    for name in word:
        if name in arcs: out = [O.half_about(R, st[name], 1, s, oriented=True) for s in out]
        else: out = [O.twist(R, st[name], 1, s) for s in out]
    return tuple(out)

def relations(case, ctx):
    g, n = case['g'], case['n']
    S = curver.load(g, n)
    R, st = generators(S, ctx)
    arcs = set(S.arcs)
    names = sorted(st)
    for k, (x, y) in enumerate(combinations(names, 2)):
        if k % case['of'] != case['part']: continue
        meet = ref.intersection(R, st[x], st[y])
        shared = len(arc_ends_of(R, st[x]) & arc_ends_of(R, st[y])) if x in arcs and y in arcs else 0
        commute = meet == 0 and shared == 0
        braid = (meet == 1 and x not in arcs and y not in arcs) or (meet == 0 and shared == 1)
        for length, theory in ((2, commute), (3, braid), (4, None)):
            left = [(x, y)[i % 2] for i in range(length)]
            right = [(y, x)[i % 2] for i in range(length)]
            want = model_images(R, st, arcs, left[::-1]) == model_images(R, st, arcs, right[::-1])
            if theory is not None: ctx.equal(want, theory or (g, n) == (0, 3) and length == 3, lambda: f'the arrangement of {x} and {y} against the relation {left} = {right}')
            ctx.equal(S('.'.join(left)) == S('.'.join(right)), want, lambda: f'the relation {".".join(left)} == {".".join(right)}')
            ctx.step()
            ctx.outcome(f'length {length} {want}')
    ctx.state(); ctx.trace()

def chains(case, ctx):
    g, n = case['g'], case['n']
    S = curver.load(g, n)
    R, st = generators(S, ctx)
    base = ['a_0']
    for i in range(g):
        base.append(f'b_{i}')
        if i < g - 1: base.append(f'c_{i}')
    options = [base[:k] for k in range(2, len(base) + 1)] + [base + [f'p_{i}'] for i in range(1, n)] + ([base + [f'd_{g-1}'], base + [f'a_{g-1}']] if g > 1 else [])
    for chain in options:
        if len(chain) > case.get('longest', 6): continue
        k = len(chain)
        U = surgery.boundary_union(R, {st[c]: 1 for c in chain[::2]}, {st[c]: 1 for c in chain[1::2]})
        U = {c: m for c, m in U.items() if kind_of(R, c) == 'curve'}
        f = S(f'({".".join(chain)})^{2 * k + 2 if k % 2 == 0 else k + 1}')
        T = S.triangulation
        want = T(ref.vector(R, U)).encode_twist() if U else T.id_encoding()
        ctx.equal(f == want, True, lambda: f'the chain relation of {chain} with boundary {U}')
        ctx.equal(f.is_identity(), not U, lambda: f'the power of the chain {chain} is the identity')
        ctx.step(); ctx.outcome(f'chain of length {k}')
    ctx.state(); ctx.trace()

LETTERS = {  # name: (genus, punctures, curves, arcs, pairs that cross once)
    'S_0_4': (0, 4, '', 'abcd', ''),
    'S_1_1': (1, 1, 'ab', '', 'ab'),
    'S_1_2': (1, 2, 'abc', 'x', 'ab bc cx'),
    'S_1_2p': (1, 2, 'abc', '', 'ab bc'),
    'S_2_1': (2, 1, 'abcdef', '', 'ab bc cd ce af'),
    'S_3_1': (3, 1, 'abcdefgh', '', 'ab bc cd de ef eg ch'),
    'S_4_1': (4, 1, 'abcdefghij', '', 'ab bc cd de ef fg gh gi ej'),
    'S_5_1': (5, 1, 'abcdefghijkl', '', 'ab bc cd de ef fg gh hi ij ik gl'),
    }

def named(case, ctx):
    name = case['name']
    S = curver.load(name)
    R, st = generators(S, ctx)
    [(g, n, _)] = R.surface().values()
    if name.startswith('SB'):
        U = curver.load(0, int(name[3:]))
        ctx.equal((g, n), (0, int(name[3:])), 'surface')
        ctx.equal({k: list(v) for k, v in S.arcs.items()}, {k: list(v) for k, v in U.arcs.items()}, 'arcs')
        ctx.check(S == U, lambda: f'{name} differs from the sphere braid group')
    else:
        g2, n2, curves, arcs, pairs = LETTERS[name]
        ctx.equal((g, n, ''.join(sorted(S.curves)), ''.join(sorted(S.arcs))), (g2, n2, curves, arcs), f'surface and generators of {name}')
        for x, y in combinations(sorted(st), 2):
            ctx.equal(ref.intersection(R, st[x], st[y]), int(x + y in pairs.split() or y + x in pairs.split()), lambda: f'crossings of {x} and {y} in {name}')
            ctx.step()
        ctx.equal(len(set(st.values())), len(st), 'number of different curves and arcs')
    ctx.state(); ctx.trace(); ctx.outcome('named')

def run_case(case, ctx):
    kind = case['kind']
    if kind == 'invalid':
        for args in INVALID: ctx.rejects(lambda: curver.load(*args), f'load{args}')
        ctx.state()
    else: {'arrangement': arrangement, 'relations': relations, 'chains': chains, 'named': named}[kind](case, ctx)
