''' C18: straight line programs against the sequences they denote; union-find by exhaustive exploration of its reachable concrete states. '''

import copy
from itertools import combinations, product

from mc.sut import curver

TECHNIQUE = 'explicit-state BFS over the concrete states of the real union-find under all operations; exhaustive enumeration of straight line program expressions and graphs against list semantics'
LEVEL_NOTE = 'All expression trees up to the stated depth over all short sequences, all acyclic graphs with at most 3 nodes, all union/find histories on at most 5 items (every reachable concrete state is visited and expanded).'

def bounds(tier):
    return 'SLP: all sequences of length <= 3 over 2 letters, and over 18 items of all kinds (including lists, tuples and numbers); all expressions of depth <= 3 (quick: 2); all graphs on <= 3 nodes with <= 3 children; powers <= 40 and huge. Union-find: all reachable states on <= %d items' % (6 if tier == 'thorough' else 5)

def cases(tier):
    out = []
    for n in range(1, 7 if tier == 'thorough' else 6): out.append({'kind': 'uf', 'n': n})
    for n in range(2, 5): out.append({'kind': 'ufbig', 'n': 4 * n})
    seqs = [''.join(s) for r in range(0, 4) for s in product('ab', repeat=r)]
    for s in seqs: out.append({'kind': 'expr', 'seq': s, 'depth': 3 if tier == 'thorough' else 2})
    out.append({'kind': 'huge'})
    out.append({'kind': 'nested', 'length': 4 if tier == 'thorough' else 3})
    for i in range(8): out.append({'kind': 'graph', 'part': i, 'wide': tier == 'thorough'})
    return sorted(out, key=lambda c: -c.get('n', 0))

def same(P, L, ctx, what):
    ''' The program P denotes the list L. '''
    L = list(L)
    ctx.state(); ctx.trace()
    ctx.equal(len(P), len(L), lambda: f'length of {what}')
    ctx.equal(list(P), L, lambda: f'iteration of {what}')
    for i in range(-len(L), len(L)):
        ctx.equal(P[i], L[i], lambda: f'item {i} of {what}')
    for i in (len(L), -len(L) - 1, len(L) + 5):
        ctx.rejects(lambda: P[i], f'item {i} of {what}', (IndexError,))
    ctx.equal(list(reversed(P)), L[::-1], lambda: f'reversed {what}')
    R = P.reverse()
    ctx.equal(list(R), L[::-1], lambda: f'reverse of {what}')
    ctx.equal(len(R), len(L), lambda: f'length of reverse of {what}')
    for i in range(len(L)): ctx.equal(R[i], L[-1 - i], lambda: f'item {i} of reverse of {what}')
    M = P.map(lambda x: (x, 1))
    ctx.equal(list(M), [(x, 1) for x in L], lambda: f'map of {what}')
    for x in ('a', 'b', 'c', 0, 1):
        ctx.equal(x in P, x in L, lambda: f'membership of {x!r} in {what}')
    ctx.equal(list(curver.kernel.StraightLineProgram(P)), L, lambda: f'copy of {what}')
    want = str(L) if len(L) <= 7 else '[%s, %s, %s, ..., %s, %s, %s]' % tuple(L[:3] + L[-3:])
    ctx.equal(str(P), want, lambda: f'printed form of {what}')

def run_case(case, ctx):
    SLP, UF = curver.kernel.StraightLineProgram, curver.kernel.UnionFind
    kind = case['kind']
    if kind == 'expr':
        s = list(case['seq'])
        base = SLP(s)
        same(base, s, ctx, f'SLP({s})')
        same(SLP(tuple(s)), s, ctx, f'SLP({tuple(s)})')
        level = [(base, s, f'SLP({s})')]
        others = [(SLP(list(t)), list(t)) for t in ('', 'a', 'ba', 'cab')]
        for depth in range(case['depth']):
            new = []
            for P, L, w in level:
                for Q, K in others:
                    new.append((P + Q, L + K, f'({w} + {K})'))
                    new.append((Q + P, K + L, f'({K} + {w})'))
                new.append((P + P, L + L, f'({w} doubled)'))
                for k in (0, 1, 2, 3, 5, 6):
                    if len(L) * k > 150: continue
                    new.append((P * k, L * k, f'({w} * {k})'))
                new.append((2 * P, L + L, f'(2 * {w})'))
                new.append((P.reverse(), L[::-1], f'rev({w})'))
                for qs in ([], [0], [1, 2], [3, 0, 1]):
                    new.append((SLP.sum([P] + [others[q][0] for q in qs]), L + [x for q in qs for x in others[q][1]], f'sum({w}, {qs})'))
                new.append((SLP.sum([P, P, P]), L * 3, f'sum(3 x {w})'))
            for P, L, w in new: same(P, L, ctx, w)
            for P, L, w in level: same(P, L, ctx, w + ' after use')  # Not modified.
            level = new
            ctx.step(len(new))
        if case['depth'] < 3:
            for k in range(4, 41): same(base * k, s * k, ctx, f'{s} * {k}')
        return
    if kind == 'nested':
        # Items of every kind, including ones that look like part of a graph (which all of the items together must not).
        items = ['a', '', 1, 0, -1, None, 1.5, ('a',), ['a', 'b'], (), [], (1, 'a'), ['a', 1], (('a', 1), 2), [0], (1, 0), {1: 2}, 'ab']
        for r in range(1, case['length'] + 1):
            for t in product(items, repeat=r):
                if all(isinstance(x, (list, tuple)) and all(isinstance(y, int) for y in x) for x in t): continue  # A graph.
                L = list(t)
                for data in ((L, t) if r < 3 else (L,)):
                    P = SLP(data)
                    ctx.equal(list(P), L, lambda: f'iteration of SLP({data})')
                    ctx.equal(len(P), r, lambda: f'length of SLP({data})')
                    if r < 3:
                        ctx.equal([P[i] for i in range(-r, r)], L + L, lambda: f'items of SLP({data})')
                        ctx.equal(list((P + P.reverse()) * 2), (L + L[::-1]) * 2, lambda: f'operations on SLP({data})')
                        ctx.equal([x in P for x in items], [x in L for x in items], lambda: f'membership in SLP({data})')
                        ctx.equal(list(P.map(lambda x: [x])), [[x] for x in L], lambda: f'map of SLP({data})')
                ctx.state(); ctx.trace()
        for bad in (3, None, 'ab', {1, 2}, {}): ctx.rejects(lambda: SLP(bad), f'SLP({bad!r})', (ValueError,))
        return
    if kind == 'huge':
        for s in ('a', 'ab', 'abc'):
            n = len(s)
            for k in (10**6 + 7, 2**70, 3**50 + 1):
                P = SLP(list(s)) * k
                ctx.check(P.size() < 1000, 'program expanded')
                if n * k < 2**62: ctx.equal(len(P), n * k, f'length of {s} * {k}')
                Q = (P + SLP(['c'])) * 3 + P.reverse()
                for i in (0, 1, 2, n * k - 1, n * k // 2, n * k // 3 * 2 + 1):
                    if n * k < 2**62: ctx.equal(P[i], s[i % n], f'item {i} of {s} * {k}')
                    if i < n * k: ctx.equal(Q.map(str.upper)[i] if n * k < 2**60 else 'x', s[i % n].upper() if n * k < 2**60 else 'x', f'item {i}')
                if n * k < 2**60:
                    ctx.equal(Q[n * k], 'c', 'item at the join')
                    ctx.equal(Q[3 * n * k + 3], s[-1], 'first item of the reversed part')
                ctx.state(); ctx.trace()
        return
    if kind == 'graph':
        T = [curver.kernel.structures.Terminal(x) for x in 'ab']
        def graphs():
            leaf = [tuple(c) for r in range(0, 3) for c in product(T, repeat=r)]
            items1 = T + [1]
            items2 = T[:1] + [1, 2]
            for g0 in [c for r in range(1, 4) for c in product(items1, repeat=r)]:
                for g1 in leaf: yield [g0, g1]
            for g0 in [c for r in range(1, 4 if case['wide'] else 3) for c in product(items2, repeat=r)]:
                for g1 in [c for r in range(0, 3) for c in product(T + [2], repeat=r)]:
                    for g2 in leaf: yield [g0, g1, g2]
        def expand(g, v): return [x for c in g[v] for x in ([c.value] if not isinstance(c, int) else expand(g, c))]
        for i, g in enumerate(graphs()):
            if i % 8 != case['part']: continue
            L = expand(g, 0)
            same(SLP([list(c) for c in g]), L, ctx, f'graph {g}')
            # The same program with its nodes stored in another order.
            if len(g) == 3:
                sw = {0: 0, 1: 2, 2: 1}
                h = [[c if not isinstance(c, int) else sw[c] for c in g[j]] for j in (0, 2, 1)]
                same(SLP(h), L, ctx, f'graph {h}')
        return
    n = case['n']
    if kind == 'ufbig':
        # Long chains: join blocks in every order pattern.
        for pattern in range(4):
            uf = UF(list(range(n)))
            part = [{i} for i in range(n)]
            for i in range(n - 1):
                x, y = [(i, i + 1), (i + 1, i), (0, i + 1), (n - 1 - i, n - 2 - i)][pattern]
                uf.union(x, y) if i % 2 else uf.union2(x, y)
                a, b = [next(p for p in part if z in p) for z in (x, y)]
                if a is not b: part.remove(b); a |= b
                partition(uf, part, list(range(n)), ctx, f'pattern {pattern} after {i}')
        return
    names = [('x%d' % i) for i in range(n)]
    start = UF(list(names))
    init = frozenset(frozenset([x]) for x in names)
    def key(uf): return repr([sorted(v.items(), key=str) if isinstance(v, dict) else v for k, v in sorted(vars(uf).items())])
    ops = [('union2', (x, y)) for x in names for y in names] + [('find', (x,)) for x in names]
    if n <= 4: ops += [('union', t) for t in product(names, repeat=3)]
    ops += [('union', (x,)) for x in names] + [('union', ())] + [('union', tuple(names))]
    seen = {key(start): ()}
    todo = [(start, init, ())]
    partition(start, init, names, ctx, 'start')
    while todo:
        uf, part, hist = todo.pop()
        for op, args in ops:
            v = copy.deepcopy(uf)
            if op == 'find':
                r = v(args[0])
                ctx.check(r in next(p for p in part if args[0] in p), lambda: f'root of {args[0]} outside its class after {hist}')
                new = part
            else:
                getattr(v, op)(*args)
                joined = [p for p in part if p & set(args)]
                new = (part - frozenset(joined)) | ({frozenset().union(*joined)} if joined else set())
            ctx.step()
            k = key(v)
            if k in seen: continue
            h = hist + ((op, args),)
            seen[k] = h
            ctx.state(); ctx.trace()
            partition(v, new, names, ctx, h)
            todo.append((v, frozenset(new), h))
    ctx.outcome('union-find states', len(seen))

def partition(uf, part, names, ctx, hist):
    uf = copy.deepcopy(uf)  # Finding compresses paths.
    want = {frozenset(p) for p in part}
    got = [tuple(g) for g in uf]
    ctx.equal(sorted(map(sorted, got)), sorted(map(sorted, want)), lambda: f'classes after {hist}')
    ctx.equal(len(uf), len(want), lambda: f'number of classes after {hist}')
    where = {x: p for p in want for x in p}
    for x, y in combinations(names, 2):
        ctx.equal(uf(x) == uf(y), where[x] is where[y], lambda: f'{x} ~ {y} after {hist}')
        ctx.check(uf(x) in where[x], lambda: f'root of {x} outside its class after {hist}')
