''' C26: everything that enumerates objects, compared with an exhaustive exploration of the flip graph / vector space / Cayley graph of the model. '''

from itertools import combinations, product

from mc.spaces import *
from mc import moves, oriented as O, surgery

def vector(R, comps): return tuple(ref.vector(R, comps))

BATCH = 1
# (surface, triangulations, flips of all_encodings)
FLIPS = {
    'quick': [((0, 3), 9, 3), ((1, 1), 2, 3), ((0, 4), 9, 2), ((1, 2), 9, 2), ((0, 5), 4, 2), ((2, 1), 2, 2)],
    'thorough': [((0, 3), 9, 5), ((1, 1), 2, 5), ((0, 4), 20, 3), ((1, 2), 20, 3), ((0, 5), 20, 2), ((2, 1), 9, 2), ((1, 3), 9, 2)],
    }
# (surface, triangulations, number of unused edges at most, stride of multiarcs, flips of the multiarc away from the triangulation)
ARCS = {
    'quick': [((0, 3), 9, 3, 1, 1), ((1, 1), 2, 3, 1, 1), ((0, 4), 9, 4, 1, 0), ((0, 4), 3, 3, 5, 1), ((1, 2), 9, 4, 2, 0), ((0, 5), 8, 4, 31, 0), ((2, 1), 5, 4, 41, 0), ((1, 3), 4, 4, 61, 0)],
    'thorough': [((0, 3), 9, 3, 1, 2), ((1, 1), 2, 3, 1, 2), ((0, 4), 20, 5, 1, 0), ((0, 4), 9, 5, 2, 1), ((1, 2), 20, 5, 1, 0), ((1, 2), 9, 5, 5, 1), ((0, 5), 20, 5, 9, 0), ((2, 1), 9, 5, 19, 0), ((1, 3), 9, 5, 29, 0), ((0, 6), 4, 5, 199, 0)],
    }
# (surface, triangulations, curves up to length, components)
CYCLES = {
    'quick': [((0, 3), 9, 8, 2), ((1, 1), 2, 8, 2), ((0, 4), 9, 8, 2), ((1, 2), 6, 8, 2), ((0, 5), 3, 7, 2)],
    'thorough': [((0, 3), 9, 10, 3), ((1, 1), 2, 12, 3), ((0, 4), 20, 10, 3), ((1, 2), 20, 10, 3), ((0, 5), 12, 9, 2), ((2, 1), 4, 8, 2)],
    }
SUBS = {
    'quick': [((0, 3), 3, 6), ((1, 1), 2, 6), ((0, 4), 4, 3), ((1, 2), 4, 3), ((0, 4), 1, 4)],
    'thorough': [((0, 3), 9, 8), ((1, 1), 2, 8), ((0, 4), 9, 6), ((1, 2), 9, 6), ((0, 5), 5, 5), ((2, 1), 3, 5)],
    }
# (surface, triangulations, generators at most, length)
CAYLEY = {
    'quick': [((0, 3), 2, 3, 3), ((1, 1), 2, 3, 3), ((0, 4), 3, 3, 2), ((1, 2), 3, 3, 2), ((0, 5), 1, 3, 2)],
    'thorough': [((0, 3), 4, 3, 4), ((1, 1), 2, 4, 4), ((0, 4), 6, 4, 3), ((1, 2), 6, 4, 3), ((0, 5), 3, 4, 3), ((2, 1), 3, 4, 2)],
    }
UNIONS = {'quick': [[(0, 3), (1, 1)], [(1, 1), (1, 1)]], 'thorough': [[(0, 3), (1, 1)], [(1, 1), (1, 1)], [(0, 4), (0, 3)], [(1, 2), (1, 1)]]}

ASSUMPTIONS = ['a filling multiarc is one meeting every essential curve: complementary once punctured discs are allowed', 'vertex cycles may or may not pass twice through an edge in the same direction (the documentation is silent); those passing at most once in each direction have to be listed', 'the ball of a multiarc is around some triangulation containing it, whichever']

def bounds(tier):
    return f'all_encodings {FLIPS[tier]} (surface, triangulations, flips); disjoint arcs {ARCS[tier]} (surface, triangulations, unused edges, stride, flips away); vertex cycles {CYCLES[tier]} (surface, triangulations, length of curves, components); sublaminations {SUBS[tier]} (surface, triangulations, total weight); Cayley graphs {CAYLEY[tier]} (surface, triangulations, generators, length); unions {UNIONS[tier]}'

def flat(R): return [list(x) for x in R.triples]

def cases(tier):
    out = []
    for (g, n), count, gens, length in CAYLEY[tier]:
        for t in triangulations(g, n, 40)[:count]: out.append({'kind': 'cayley', 'tri': flat(labelled(t, 1)), 'gens': gens, 'length': length})
    for (g, n), count, hidden, stride, away in ARCS[tier]:
        parts = max(1, min(8, 8 // max(1, stride // 2))) if n + 2 * g > 3 else 2
        for t in triangulations(g, n, 40)[:count]:
            for part in range(parts): out.append({'kind': 'arcs', 'tri': flat(labelled(t, 1)), 'hidden': hidden, 'stride': stride * parts, 'start': part * stride, 'away': away} | ({'pairs': 400, 'subsets': 30000} if tier == 'thorough' else {}))
    for (g, n), count, length, size in CYCLES[tier]:
        for t in triangulations(g, n, 40)[:count]: out.append({'kind': 'cycles', 'tri': flat(labelled(t, 1)), 'length': length, 'size': size})
    for (g, n), count, flips in FLIPS[tier]:
        for t in triangulations(g, n, 40)[:count]: out.append({'kind': 'flips', 'tri': flat(labelled(t, 1)), 'flips': flips})
    for (g, n), count, total in SUBS[tier]:
        for t in triangulations(g, n, 40)[:count]: out.append({'kind': 'subs', 'tri': flat(labelled(t, 1)), 'total': total})
    for parts in UNIONS[tier]:
        U = disjoint_union(*[triangulations(*p)[0] for p in parts])
        out.append({'kind': 'flips', 'tri': flat(U), 'flips': 2})
        out.append({'kind': 'arcs', 'tri': flat(U), 'hidden': 5, 'stride': 3, 'start': 0, 'away': 0})
        out.append({'kind': 'cayley', 'tri': flat(U), 'gens': 3, 'length': 2})
        out.append({'kind': 'subs', 'tri': flat(U), 'total': 4})
    return out

# --- Flips ---------------------------------------------------------------------------------------

def all_flips(R, k):
    ''' {(target labels, images of the edges)} for all sequences of at most k flips. '''
    start = [('e', i) for i in range(R.zeta)]
    out = set()
    def rec(S, images, left):
        out.add((S.key(), tuple(vector(S, {s: 1}) for s in images)))
        if not left: return
        for x in range(S.zeta):
            if S.flippable(x): rec(S.flip(x), [ref.flip_strand(S, x, s) for s in images], left - 1)
    rec(R, start, k)
    return out

def check_flips(case, ctx):
    R = Tri(case['tri'])
    T = build(R)
    for k in range(case['flips'] + 1):
        want = all_flips(R, k)
        got = set()
        for h in T.all_encodings(k):
            S = tri_of(h.target_triangulation)
            ctx.check(h.source_triangulation == T, lambda: f'all_encodings({k}) of {R.triples} does not start there')
            got.add((S.key(), tuple(tuple(h(T.edge_arc(i))) for i in range(R.zeta))))
            ctx.step()
        ctx.check(got == want, lambda: f'all_encodings({k}) of {R.triples}: missing {sorted(want - got)[:2]}, extra {sorted(got - want)[:2]}')
        ctx.state(len(want)); ctx.trace()
        ctx.outcome(f'{k} flips')

# --- Marked triangulations ----------------------------------------------------------------------------

def back(S, x, s):
    ''' Undo the flip of x in S: from S.flip(x) to S. '''
    U = S.flip(x)
    return ref.flip_strand(U, ~x, s)

class Marked:
    ''' A triangulation with the strand (in a fixed base) that each edge is. '''
    def __init__(self, S, path, strands): self.S, self.path, self.strands = S, path, strands
    def key(self): return frozenset(self.strands)
    def flip(self, x):
        x = max(x, ~x)
        U = self.S.flip(x)
        s = ('e', x)
        path = self.path + [(self.S, x)]
        for V, y in reversed(path): s = back(V, y, s)
        strands = list(self.strands)
        strands[x] = canon(s)
        return Marked(U, path, strands)

def explore(start, fixed, depth=None, limit=4000):
    ''' All marked triangulations reachable by flipping edges other than the given ones: {edges: marked}. '''
    seen = {start.key(): start}
    level = [start]
    while level and (depth is None or depth > 0):
        nxt = []
        for m in level:
            for x in range(m.S.zeta):
                if m.strands[x] in fixed or not m.S.flippable(x): continue
                q = m.flip(x)
                if q.key() not in seen:
                    seen[q.key()] = q
                    nxt.append(q)
        level = nxt
        if depth is not None: depth -= 1
        assert len(seen) <= limit
    return seen

def check_arcs(case, ctx):
    R = Tri(case['tri'])
    T = build(R)
    base = Marked(R, [], [('e', i) for i in range(R.zeta)])
    starts = list(explore(base, (), case['away']).values())[:case.get('limit', 6)]
    if case['away']: starts = starts[1:]
    subsets = [c for k in range(1, R.zeta + 1) for c in combinations(range(R.zeta), k) if R.zeta - k <= case['hidden']]
    todo = [(m, c) for m in starts for c in subsets][case['start']::case['stride']]
    for m, c in todo:
        M = {m.strands[i]: 1 for i in c}
        if not surgery.is_filling(R, M): continue
        lam = T(vector(R, M))
        ctx.check(lam.is_filling(), lambda: f'{M} fills {R.triples}')
        states = explore(m, set(M))
        text = f'the multiarc {sorted(M)} on {R.triples}'
        vec = lambda s: vector(R, {s: 1})
        total = lambda S: vector(R, {s: 1 for s in S})
        arcs = {vec(s) for S in states for s in S}
        L = list(lam.all_disjoint_arcs())
        got = {tuple(a) for a in L}
        ctx.check(all(isinstance(a, curver.kernel.Arc) and a.triangulation == T for a in L), lambda: f'not every arc listed as disjoint from {text} is one: {L}')
        ctx.equal(len(L), len(got), lambda: f'arcs disjoint from {text} listed more than once')
        ctx.check(got == arcs, lambda: f'arcs disjoint from {text}: missing {sorted(arcs - got)[:3]}, extra {sorted(got - arcs)[:3]}')
        ctx.state(len(states)); ctx.step(len(arcs)); ctx.trace()
        ctx.outcome(f'{R.zeta - len(c)} hidden edges')
        if len(arcs) * (len(arcs) - 1) // 2 > case.get('pairs', 80): continue
        ctx.outcome('multiarcs and triangulations')
        L = list(lam.all_disjoint_triangulations())
        got = {tuple(a) for a in L}
        ctx.equal(len(L), len(got), lambda: f'triangulations disjoint from {text} listed more than once')
        want = {total(S) for S in states}
        ctx.check(got == want, lambda: f'triangulations disjoint from {text}: missing {sorted(want - got)[:3]}, extra {sorted(got - want)[:3]}')
        subs = {frozenset(sub) for S in states for k in range(1, len(S) + 1) for sub in combinations(sorted(S), k)} if len(states) * 2**R.zeta <= case.get('subsets', 1500) else None
        if subs is not None:
            L = list(lam.all_disjoint_multiarcs())
            got = {tuple(a) for a in L}
            ctx.equal(len(L), len(got), lambda: f'multiarcs disjoint from {text} listed more than once')
            got -= {(0,) * R.zeta}
            want = {total(S) for S in subs}
            ctx.check(got == want, lambda: f'multiarcs disjoint from {text}: missing {sorted(want - got)[:3]}, extra {sorted(got - want)[:3]}')
        if case['start'] == 0 and R.zeta <= 9 and len(states) <= 30:
            for radius in (0, 1) if R.zeta > 3 else (0, 1, 2):
                got = {tuple(t) for t in lam.explore_ball(radius)}
                balls = [{total(S) for S in explore(q, (), radius)} for q in states.values()]
                ctx.check(got in balls, lambda: f'the ball of radius {radius} about {text}: {sorted(got)} is not the ball about any triangulation containing it')
                ctx.outcome(f'ball of radius {radius}')

# --- Vertex cycles -------------------------------------------------------------------------------------

def corner_weights(R, v):
    ''' Weight of the normal arcs cutting off the corner at the tail of each label. '''
    out = {}
    for x in R.labels():
        a, b, c = (max(v[max(y, ~y)], 0) for y in (x, R.prv[x], R.nxt[x]))
        out[x] = (a + b - c) // 2
    return out

def passes(s):
    ''' Number of times a closed word crosses each label. '''
    out = {}
    for x in s[1]: out[x] = out.get(x, 0) + 1
    return out

def check_cycles(case, ctx):
    R = Tri(case['tri'])
    T = build(R)
    small = {}
    for v in vectors(R, 0, 2):
        if not any(v): continue
        D = components(R, v)
        if len(D) == 1:
            [(s, m)] = D.items()
            if m == 1 and s[0] == 'c': small[v] = ({x for x, w in corner_weights(R, v).items() if w > 0}, max(passes(s).values()) <= 1)
    S = [s for s in strands_up_to(R, case['length'], arcs=False)]
    seen = set()
    for size in range(1, case['size'] + 1):
        for sys in systems(R, S, size):
            v = vector(R, {S[i]: 1 for i in sys})
            support = frozenset(x for x, w in corner_weights(R, v).items() if w > 0)
            if support in seen: continue
            seen.add(support)
            lam = T(v)
            L = list(lam.vertex_cycles())
            got = {tuple(c) for c in L}
            allowed = {u for u, (sup, _) in small.items() if sup <= support}
            needed = {u for u in allowed if small[u][1]}
            text = f'vertex cycles of {v} on {R.triples}'
            ctx.check(all(isinstance(c, curver.kernel.Curve) and c.triangulation == T for c in L), lambda: f'{text}: {L}')
            ctx.check(got <= allowed, lambda: f'{text}: not such curves {sorted(got - allowed)[:3]}')
            ctx.check(needed <= got, lambda: f'{text}: missing {sorted(needed - got)[:3]}')
            ctx.check(tuple(lam.vertex_cycle()) in got, lambda: f'{text}: vertex_cycle')
            ctx.state(); ctx.step(len(got)); ctx.trace()
            ctx.outcome('vertex cycles')

# --- Sublaminations ------------------------------------------------------------------------------------

def check_subs(case, ctx):
    R = Tri(case['tri'])
    T = build(R)
    for v in vectors(R, -2, 3, total=case['total']):
        C = components(R, v)
        if len(C) > 4: continue
        lam = T(v)
        L = lam.sublaminations()
        ctx.equal(len(L), 2**len(C) - 1, lambda: f'number of sublaminations of {v} on {R.triples}')
        got = set()
        for sub in L:
            D = components(R, tuple(sub))
            ctx.check(D and all(1 <= m <= C.get(s, 0) for s, m in D.items()), lambda: f'{sub} is listed as a sublamination of {v} on {R.triples}')
            got.add(frozenset(D))
        ctx.equal(len(got), 2**len(C) - 1, lambda: f'number of distinct sublaminations of {v} on {R.triples}')
        ctx.state(); ctx.step(len(L)); ctx.trace()
        ctx.outcome(f'{len(C)} components')

# --- Cayley graphs -----------------------------------------------------------------------------------------

def check_cayley(case, ctx):
    R = Tri(case['tri'])
    W = [[l] for l in moves.letters(R, (1,)) if l[0] in ('twist', 'half')]
    iso = [w for w in moves.closed_words(R, (1,), 0) if w[0][0] == 'isometry']
    flips = [w for w in moves.closed_words(R, (1,), 1) if len(w) == 2 and w[0][0] == 'flip']
    options = [W[:case['gens']], W[:1] + iso[-1:] + flips[:1], iso[:case['gens']], [W[-1], W[-1]] + iso[-1:] if W else iso]
    for gens in options:
        if not gens: continue
        names = [chr(ord('a') + i) for i in range(len(gens))]
        G = curver.kernel.MappingClassGroup({n: moves.encode(R, w)[0] for n, w in zip(names, gens)})
        inverse = {}
        key = lambda w: O.images(R, w)[1]
        for use in (names, [n.upper() for n in names] + names) if not (gens is options[2]) else (names,):
            word = {}
            for n, w in zip(names, gens): word[n] = w
            power = {}
            if len(use) > len(names):
                for n, w in zip(names, gens): word[n.upper()] = inverted(R, w)
            for length in range(0, case['length'] + 1):
                # Breadth first over the whole ball.
                ball = {key([]): 0}
                level = [[]]
                for d in range(1, length + 1):
                    nxt = []
                    for u in level:
                        for g in use:
                            k = key(u + word[g])
                            if k not in ball:
                                ball[k] = d
                                nxt.append(u + word[g])
                    level = nxt
                L = list(G.cayley(use, length))
                got = {}
                for name in L:
                    u = [l for g in reversed(name) for l in word[g]]
                    k = key(u)
                    ctx.check(k not in got, lambda: f'cayley({use}, {length}) on {R.triples} with {gens}: {got[k]} and {name} are the same element')
                    ctx.equal(len(name), ball.get(k), lambda: f'cayley({use}, {length}) on {R.triples} with {gens}: length of {name}')
                    got[k] = name
                ctx.equal(len(got), len(ball), lambda: f'cayley({use}, {length}) on {R.triples} with {gens}: number of elements')
                ctx.state(len(ball)); ctx.step(len(ball) * len(use)); ctx.trace()
                ctx.outcome(f'length {length}')

def inverted(R, w):
    ''' A word for the inverse. '''
    out, S = [], R
    for l in w:
        if l[0] in ('twist', 'half'): out = [[l[0], l[1], -l[2]]] + out
        elif l[0] == 'flip':
            out = [['flip', ~l[1]]] + out
        elif l[0] == 'isometry': out = [['isometry', {str(v): int(k) for k, v in l[1].items()}]] + out
        else: raise ValueError(l)
        S = moves.target(S, l)
    return out

RUN = {'flips': check_flips, 'arcs': check_arcs, 'cycles': check_cycles, 'subs': check_subs, 'cayley': check_cayley}

def run_case(case, ctx):
    RUN[case['kind']](case, ctx)
