''' C29: combinatorics of triangulations, exhaustively over small label lists, valid and invalid. '''

from itertools import combinations, combinations_with_replacement, permutations, product
from math import gcd

from mc.spaces import *

BATCH = 1

def bounds(tier):
    return 'every list of two triples over the labels -4..3 and of one triple over -3..2; every list made from a valid one by changing or adding one entry; all labellings of S_0,3 and S_1,1; every triangulation (modulo relabelling, four labellings) of ' + str(SURFACES[tier]) + ' and unions; every set of at most %d avoided edges' % (99 if tier == 'thorough' else 3)

SURFACES = {'quick': [(0, 3), (1, 1), (0, 4), (1, 2), (0, 5), (2, 1), (1, 3)], 'thorough': [(0, 3), (1, 1), (0, 4), (1, 2), (0, 5), (2, 1), (1, 3), (0, 6), (2, 2), (3, 1), (0, 7)]}
UNIONS = [[(0, 3), (0, 3)], [(0, 3), (1, 1)], [(1, 1), (1, 1)], [(1, 1), (0, 4)], [(1, 2), (0, 3)], [(0, 3), (0, 3), (0, 3)], [(1, 1), (0, 3), (1, 1)]]

def cases(tier):
    out = []
    for first in range(-4, 4): out.append({'kind': 'lists', 'first': first})
    out.append({'kind': 'shapes'})
    for g, n in [(0, 3), (1, 1)]:
        for t in triangulations(g, n): out.append({'kind': 'labellings', 'tri': [list(x) for x in t]})
    for g, n in [(0, 3), (1, 1), (0, 4), (1, 2)] + ([(0, 5), (2, 1)] if tier == 'thorough' else []):
        for t in triangulations(g, n): out.append({'kind': 'mutations', 'tri': [list(x) for x in labelled(t, 1).triples]})
    for g, n in SURFACES[tier]:
        ts = triangulations(g, n, 400)
        for i in range(0, len(ts), 12): out.append({'kind': 'combinatorics', 'surface': [g, n], 'from': i, 'to': min(i + 12, len(ts)), 'avoid': 99 if tier == 'thorough' else 3})
    for parts in UNIONS:
        out.append({'kind': 'unions', 'parts': [list(p) for p in parts], 'avoid': 99 if tier == 'thorough' else 2})
    out.append({'kind': 'max_order', 'size': 4 if tier == 'thorough' else 3})
    return out

def valid(lists):
    ''' Whether a list of triples is a triangulation: 0, ..., zeta-1 and their inverses occur exactly once. '''
    flat = [x for t in lists for x in t]
    return bool(lists) and len(flat) % 6 == 0 and sorted(flat) == list(range(-(len(flat) // 2), len(flat) // 2))

def attempt(lists, ctx, how='create'):
    make = curver.create_triangulation if how == 'create' else curver.kernel.Triangulation.from_tuple
    if valid(lists):
        T = make(lists)
        ctx.check(tri_of(T).key() == Tri(lists).key(), lambda: f'{lists} built as {T!r}')
        ctx.outcome('valid')
    else:
        ctx.rejects(lambda: make(lists), lambda: f'invalid list {lists}')
    ctx.state()

def lab(x):
    return getattr(x, 'label', x)

def rotations(c):
    return {tuple(c[i:]) + tuple(c[:i]) for i in range(len(c))}

def forest(R, avoid):
    ''' The numerically first maximal forest of the dual graph without the avoided edges. '''
    out = set()
    for i in range(R.zeta):
        if i in avoid: continue
        # Are the two sides already joined by smaller usable edges?
        seen, stack = {R.tri_of[i]}, [R.tri_of[i]]
        while stack:
            t = stack.pop()
            for x in R.triples[t]:
                j = max(x, ~x)
                if j < i and j not in avoid and R.tri_of[~x] not in seen:
                    seen.add(R.tri_of[~x])
                    stack.append(R.tri_of[~x])
        if R.tri_of[~i] not in seen: out.add(i)
    return out

def compare(R, ctx, avoid):
    T = build(R)
    ctx.check(tri_of(T) == R, lambda: f'triangles of {R.triples}')
    want = {frozenset(rotations(c)) for c in R.vertices()}
    got = [tuple(lab(x) for x in v) for v in T.vertices]
    ctx.equal({frozenset(rotations(v)) for v in got}, want, lambda: f'vertices of {R.triples}')
    ctx.equal(len(got), len(want), 'number of vertices listed')
    ctx.equal((T.num_vertices, T.num_triangles, T.zeta), (len(want), len(R.triples), R.zeta), lambda: f'counts of {R.triples}')
    for x in R.labels():
        v = tuple(lab(y) for y in T.vertex_lookup[x])
        ctx.check(x in v and v in got, lambda: f'vertex_lookup of {x}')
        ctx.equal([lab(y) for y in T.corner_lookup[x]], [x, R.nxt[x], R.prv[x]], lambda: f'corner of {x}')
        ctx.equal(sorted(lab(y) for y in T.triangle_lookup[x]), sorted(R.triples[R.tri_of[x]]), lambda: f'triangle of {x}')
        ctx.equal(T.is_flippable(x), R.flippable(x), lambda: f'is_flippable({x}) on {R.triples}')
        ctx.equal(T.is_flippable(curver.kernel.Edge(x)), R.flippable(x), lambda: f'is_flippable of the edge {x} on {R.triples}')
        if R.flippable(x): ctx.equal([lab(y) for y in T.square(x)], list(R.square(x)) + [x], lambda: f'square of {x} on {R.triples}')
        else: ctx.rejects(lambda: T.square(x), lambda: f'square of the non flippable edge {x}')
    ctx.equal(sorted(tuple(lab(x) for x in c) for c in T.components()), sorted(R.components()), lambda: f'components of {R.triples}')
    ctx.equal(T.is_connected(), len(R.components()) == 1, lambda: f'is_connected of {R.triples}')
    S = {tuple(lab(x) for x in c): (s.g, s.p, s.chi) for c, s in T.surface().items()}
    ctx.equal(S, R.surface(), lambda: f'surface of {R.triples}')
    ctx.equal(T.euler_characteristic, sum(chi for _, _, chi in R.surface().values()), 'Euler characteristic')
    ctx.equal(T.dual_tree(), forest(R, ()), lambda: f'dual tree of {R.triples}')
    for k in range(0, min(avoid, R.zeta) + 1):
        for A in combinations(range(R.zeta), k):
            ctx.equal(set(T.dual_tree(avoid=set(A))), forest(R, A), lambda: f'dual tree of {R.triples} avoiding {A}')
            ctx.step()
    # The same triangles in another order and rotated.
    rows = [t[i % 3:] + t[:i % 3] for i, t in enumerate(reversed(R.triples))]
    T2 = curver.create_triangulation(rows)
    ctx.check(T == T2 and not T != T2 and hash(T) == hash(T2), lambda: f'{R.triples} differs from {rows}')
    mirror = curver.create_triangulation([t[::-1] for t in R.triples])
    ctx.equal(T == mirror, Tri([t[::-1] for t in R.triples]) == R, lambda: f'equality of {R.triples} with its mirror image')
    for k in (1, 2, 3):
        R2 = R.relabel(relabelling(R.zeta, k))
        T2 = build(R2)
        ctx.equal(T == T2, R == R2, lambda: f'equality of {R.triples} and {R2.triples}')
        ctx.equal(T != T2, R != R2, lambda: f'inequality of {R.triples} and {R2.triples}')
    ctx.state(); ctx.trace()
    ctx.outcome(f'{sorted(R.surface().values())}')

def achievable(g, p):
    ''' Some orders of finite order mapping classes of S_{g,p} (from explicit rotations). '''
    def fits(m, short, free):
        ''' p is a sum of distinct short orbits and free ones. '''
        return any((p - sum(c)) >= 0 and (p - sum(c)) % m == 0 for r in range(len(short) + 1) for c in combinations(short, r))
    out = {1}
    if g == 0: out |= {m for m in range(2, p + 1) if fits(m, [1, 1], 0)}
    elif g == 1:
        out |= {m for m in range(2, p + 1) if p % m == 0}
        out |= {m for m, s in {2: [1]*4, 3: [1]*3, 4: [1, 1, 2], 6: [1, 2, 3]}.items() if fits(m, s, 0)}
    else:
        m = 4 * g + 2
        for d in range(1, m + 1):  # Powers of the rotation of the (4g+2)-gon, with the centre, its vertices and the edge midpoints as short orbits.
            if m % d == 0: out |= {d} if fits(d, [1] if d == m else [], 0) else set()
        if fits(m, [1, 2, 2*g + 1], 0): out.add(m)
        if fits(2, [1] * (2*g + 2), 0): out.add(2)
    return out

def lcm(a, b):
    return a * b // gcd(a, b)

def partitions(n, m=None):
    if n == 0: yield []
    else:
        for k in range(min(n, m or n), 0, -1):
            for r in partitions(n - k, k): yield [k] + r

def best_order(parts):
    ''' The largest order of a mapping class made from cyclic permutations of equal parts and rotations. '''
    best = {1}
    for s in set(parts):
        k = parts.count(s)
        mine = set()
        for shape in partitions(k):
            cur = {1}
            for l in shape: cur = {lcm(a, l * m) for a in cur for m in achievable(*s)}
            mine |= cur
        best = {lcm(a, b) for a in best for b in mine}
    return max(best)

def run_case(case, ctx):
    kind = case['kind']
    if kind == 'lists':
        for rest in product(range(-4, 4), repeat=5):
            f = [case['first']] + list(rest)
            attempt([tuple(f[:3]), tuple(f[3:])], ctx)
        for rest in product(range(-3, 3), repeat=2): attempt([(case['first'],) + rest], ctx, 'from_tuple')
        return
    if kind == 'shapes':
        good = [(0, 1, 2), (~0, ~1, ~2)]
        for how in ('create', 'from_tuple'):
            for bad in ([], (), [(0, 1, 2)], [(0, 1, 2), (~0, ~1)], [(0, 1, 2), (~0, ~1, ~2, 0)], [(0, 1), (2, ~0), (~1, ~2)], [(0, 1, 2), [~0, ~1, ~2], ()], [(0, 1, 2), (~0, ~1, ~2), (0,)],
                    [(0, 1, 2), None], [0, 1, 2, ~0, ~1, ~2], None, 3, [(0, 1, 2), (~0, ~1, ~2), (0, 1, 2)], [(0, 1, 2), (~0, ~1, ~2), (3, 4, 5)], [(0, 1, 2), (~0, ~1, ~2), (3, ~3, 4)], [('0', '1', '2'), (~0, ~1, ~2)]):
                make = curver.create_triangulation if how == 'create' else curver.kernel.Triangulation.from_tuple
                ctx.rejects(lambda: make(bad), f'invalid argument {bad}')
                ctx.state()
        for rows in (good, tuple(good), [list(t) for t in good]):
            ctx.check(tri_of(curver.create_triangulation(rows)) == Tri(good), 'lists and tuples of lists and tuples')
        ctx.check(tri_of(curver.kernel.Triangulation.from_tuple(*good)) == Tri(good), 'triples as separate arguments')
        return
    if kind == 'labellings':
        R = Tri(case['tri'])
        seen = []
        for p in permutations(range(R.zeta)):
            for signs in product((0, 1), repeat=R.zeta):
                m = {}
                for i in range(R.zeta):
                    j = ~p[i] if signs[i] else p[i]
                    m[i], m[~i] = j, ~j
                R2 = R.relabel(m)
                seen.append((R2, build(R2)))
                if len(seen) % 4 == 0: compare(R2, ctx, 3)
        for A, T in seen:
            for B, U in seen:
                ctx.equal(T == U, A.key() == B.key(), lambda: f'equality of {A.triples} and {B.triples}')
                if A.key() == B.key(): ctx.check(hash(T) == hash(U), 'hashes of equal triangulations')
                ctx.step()
        return
    if kind == 'mutations':
        rows = [tuple(t) for t in case['tri']]
        zeta = len(rows) * 3 // 2
        flat = [x for t in rows for x in t]
        for i in range(len(flat)):
            for x in range(-zeta - 2, zeta + 2):
                f = list(flat)
                f[i] = x
                attempt([tuple(f[j:j+3]) for j in range(0, len(f), 3)], ctx)
        # An odd number of triangles containing all the labels that their number suggests.
        z3 = (len(rows) + 1) * 3 // 2
        for extra in product(range(-z3 - 1, z3 + 1), repeat=3):
            attempt(rows + [extra], ctx)
        for i in range(len(rows)): attempt(rows[:i] + rows[i+1:], ctx)
        return
    if kind == 'combinatorics':
        for t in triangulations(*case['surface'], 400)[case['from']:case['to']]:
            for k in range(4):
                R = labelled(t, k)
                compare(R, ctx, case['avoid'] if R.zeta <= 6 else (min(case['avoid'], 2) if k else min(case['avoid'], 4)) if R.zeta < 12 else 1)
        return
    if kind == 'unions':
        for ts in product(*[triangulations(*p)[:3] for p in case['parts']]):
            R = disjoint_union(*ts)
            for k in range(3): compare(R.relabel(relabelling(R.zeta, k)), ctx, case['avoid'] if R.zeta < 9 or k == 1 else 1)
        return
    # Maximal orders.
    S = [(0, 3), (0, 4), (0, 5), (0, 6), (0, 7), (1, 1), (1, 2), (1, 3), (1, 5), (2, 1), (3, 1)]
    for size in range(1, case['size'] + 1):
        for parts in combinations_with_replacement(S, size):
            T = build(disjoint_union(*[seed_triangulation(*p) for p in parts]))
            ctx.check(T.max_order() >= best_order(list(parts)), lambda: f'max_order of {parts} is {T.max_order()} but there is a mapping class of order {best_order(list(parts))}')
            ctx.state(); ctx.trace()
            ctx.outcome(f'{size} components')
