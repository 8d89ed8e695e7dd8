''' Finite order mapping classes in the reference model: invariant polygonalisations and quotient orbifolds. '''

from fractions import Fraction
import heapq

from mc import moves, oriented as O, ref, surgery
from mc.ref import intersection
from mc.spaces import strands_up_to

MAX_ORDER = 40
MAX_LENGTH = 20000

def order(R, word):
    ''' The order of a closed word (0 if infinite, that is, no power up to MAX_ORDER is trivial). '''
    identity = tuple(('e', i) for i in range(R.zeta))
    cur = identity
    for k in range(1, MAX_ORDER + 1):
        cur = act(R, word, cur)
        if cur == identity: return k
        if sum(len(s[1]) for s in cur if s[0] == 'a') > MAX_LENGTH: return 0
    return 0

def act(R, word, items):
    ''' The images of oriented arcs. '''
    items = list(items)
    for l in word:
        items = [O.apply(R, l, s) for s in items]
        R = moves.target(R, l)
    return tuple(items)

def orbit(R, word, s):
    ''' The orbit of an unoriented arc under a finite order class. '''
    out, cur = [], s
    while True:
        out.append(cur)
        cur = O.forget(act(R, word, [cur])[0])
        if cur == s: return out

def polygonalisation(R, word, limit=8):
    ''' An invariant system of arcs cutting the surface into polygons. '''
    system, done = [], set()
    for length in range(limit + 1):
        for s in strands_up_to(R, length, curves=False, peripheral=False):
            if s in done: continue
            done.add(s)
            orb = orbit(R, word, s)
            done.update(orb)
            if any(intersection(R, s, t) for t in orb) or any(intersection(R, s, t) for t in system): continue
            system += orb
            if surgery.is_polygonalisation(R, {t: 1 for t in system}): return system
    raise RuntimeError('no invariant polygonalisation of short arcs')

def straighten(R, system):
    ''' (flips, S, edges): flips from R to a triangulation S containing the arcs of the system as edges. '''
    seen, count = set(), 0
    queue = [(sum(len(s[1]) for s in system if s[0] == 'a'), 0, (), R, tuple(system))]
    while True:
        total, _, path, S, strands = heapq.heappop(queue)
        if not total: return path, S, [s[1] for s in strands]
        fixed = {s[1] for s in strands if s[0] == 'e'}
        for x in {max(y, ~y) for s in strands if s[0] == 'a' for y in s[1]}:
            if x in fixed or not S.flippable(x): continue
            S2, new = S.flip(x), tuple(ref.flip_strand(S, x, s) for s in strands)
            key = (S2.key(), new)
            if key in seen: continue
            seen.add(key)
            count += 1
            heapq.heappush(queue, (sum(len(s[1]) for s in new if s[0] == 'a'), count, path + (x,), S2, new))

class Orbits:
    ''' The quotient of a periodic class: one entry for each orbit of components. '''
    def __init__(self, R, word, n=None):
        self.order = n = n or order(R, word)
        assert n
        system = polygonalisation(R, word)
        path, S, edges = straighten(R, system)
        back, U = [], S
        for x in reversed(path):
            back.append(['flip', ~x])
            U = U.flip(~x)
        assert U.key() == R.key(), 'straightening is not undone'
        conj = back + [list(l) for l in word] + [['flip', x] for x in path]
        K = [x for e in edges for x in (e, ~e)]
        image = {}
        for x in K:
            [t] = act(S, conj, [('e', x)])
            assert t[0] == 'e' and t[1] in set(K), (x, t)
            image[x] = t[1]
        power = [{x: x for x in K}]
        for _ in range(n): power.append({x: image[y] for x, y in power[-1].items()})
        assert power[n] == power[0] and all(power[k] != power[0] for k in range(1, n))
        anticlockwise, vertices = {}, []
        keep = set(K)
        for v in S.vertices():
            ring = [x for x in v if x in keep]
            vertices.append(ring)
            for a, b in zip(ring, ring[1:] + ring[:1]): anticlockwise[a] = b
        clockwise = {b: a for a, b in anticlockwise.items()}
        assert all(image[anticlockwise[x]] == anticlockwise[image[x]] and image[~x] == ~image[x] for x in K), 'not a homeomorphism'
        polygons, used = [], set()
        for x in K:
            if x in used: continue
            ring = [x]
            while True:
                y = clockwise[~ring[-1]]
                if y == x: break
                ring.append(y)
            used.update(ring)
            polygons.append(ring)
        # Cells: (kind, tuple of oriented arcs in anticlockwise order).
        cells = [(True, v) for v in vertices] + [(False, [x, ~x]) for x in K if x >= 0] + [(False, p) for p in polygons]
        comp_of = {x: i for i, c in enumerate(S.components()) for x in c}
        comps = S.components()
        chi = {i: data[2] for i, (c, data) in enumerate(sorted(S.surface().items(), key=lambda item: comps.index(item[0])))}
        left = set(range(len(comps)))
        self.signature = []
        self.pieces = []
        while left:
            start = min(left)
            x0 = next(x for x in K if comp_of[x] == start)
            orb = {comp_of[power[k][x0]] for k in range(n)}
            left -= orb
            kernel = [k for k in range(n) if all(power[k][x] == x for x in K if comp_of[x] == start)]
            effective = n // len(kernel)
            points, seen = [], set()
            for punctured, ring in cells:
                if comp_of[ring[0]] not in orb or (punctured, frozenset(ring), len(ring)) in seen: continue
                sizes = set()
                for k in range(n): sizes.add(frozenset(power[k][x] for x in ring))
                for s in sizes: seen.add((punctured, s, len(ring)))
                places = [x for x in ring[1:] + ring[:1] if any(power[k][ring[0]] == x for k in range(n))]
                c = len(places)
                assert effective % c == 0
                if punctured or c > 1:
                    points.append((punctured, c, tuple(k for k in range(n) if power[k][ring[0]] == places[0]), len(sizes)))
            quotient_chi = Fraction(chi[start] * len(orb), effective)
            # chi = 2 - 2 g - sum(1 - 1/c) - punctures.
            double = 2 - quotient_chi - sum(1 if p else 1 - Fraction(1, c) for p, c, _, _ in points)
            assert double.denominator == 1 and double % 2 == 0 and double >= 0, (double, quotient_chi, points)
            if len(kernel) == 1: assert sum(h[0] for _, _, h, _ in points) % n == 0, 'the product of the monodromies'
            self.pieces.append((int(double) // 2, sorted(points)))
            self.signature.append((quotient_chi, len(orb), tuple(sorted(points))))
        self.signature.sort()
        self.reducible = not all(g == 0 and len(points) == 3 for g, points in self.pieces)

# Finite subgroups with several generators.

def generate(R, generators, limit=130):
    ''' The subgroup generated by the closed words {name: word}, as {name: (word, images)} with the names of FiniteSubgroup.from_generators, or None if it has more than limit elements. '''
    identity = tuple(('e', i) for i in range(R.zeta))
    known = {name: (list(w), act(R, w, identity)) for name, w in generators.items()}
    seen = {x[1] for x in known.values()}
    queue = sorted(generators)
    while queue:
        word = queue.pop(0)
        for letter in sorted(generators):
            if letter + word in known: continue
            w = known[word][0] + list(generators[letter])
            images = act(R, generators[letter], known[word][1])
            if images in seen: continue
            if len(seen) > limit or sum(len(s[1]) for s in images if s[0] == 'a') > 400: return None
            seen.add(images)
            known[letter + word] = (w, images)
            queue.append(letter + word)
    return known

def group_polygonalisation(R, words, limit=8):
    ''' A system of arcs cutting the surface into polygons that is invariant under all of these words (of all elements of a group). '''
    system, done = [], set()
    for length in range(limit + 1):
        for s in strands_up_to(R, length, curves=False, peripheral=False):
            if s in done: continue
            orb = list(dict.fromkeys(O.forget(act(R, w, [s])[0]) for w in words))
            done.update(orb)
            if any(intersection(R, s, t) for t in orb) or any(intersection(R, s, t) for t in system): continue
            system += orb
            if surgery.is_polygonalisation(R, {t: 1 for t in system}): return system
    raise RuntimeError('no invariant polygonalisation of short arcs')

class GroupOrbits:
    ''' The quotient by a finite group of {name: word}: for each orbit of components (Euler characteristic, components above, cone points),
    where a cone point is (punctured, order, the names of its possible holonomies, preimages). '''
    def __init__(self, R, group):
        names = list(group)
        system = group_polygonalisation(R, [w for w, _ in group.values()])
        path, S, edges = straighten(R, system)
        back, U = [], S
        for x in reversed(path):
            back.append(['flip', ~x])
            U = U.flip(~x)
        K = [x for e in edges for x in (e, ~e)]
        keep = set(K)
        perm = {}
        for name in names:
            conj = back + [list(l) for l in group[name][0]] + [['flip', x] for x in path]
            images = act(S, conj, [('e', x) for x in K])
            assert all(t[0] == 'e' and t[1] in keep for t in images)
            perm[name] = {x: t[1] for x, t in zip(K, images)}
        assert len({tuple(p[x] for x in K) for p in perm.values()}) == len(names)
        n = len(names)
        lookup = {tuple(perm[a][x] for x in K): a for a in names}
        inverse = {a: lookup[tuple({y: x for x, y in perm[a].items()}[x] for x in K)] for a in names}
        def mul(a, b): return lookup[tuple(perm[a][perm[b][x]] for x in K)]
        cells = []
        for v in S.vertices(): cells.append(('v', [x for x in v if x in keep]))
        anticlockwise = {a: b for _, ring in cells for a, b in zip(ring, ring[1:] + ring[:1])}
        assert all(p[anticlockwise[x]] == anticlockwise[p[x]] and p[~x] == ~p[x] for p in perm.values() for x in K), 'not a homeomorphism'
        clockwise = {b: a for a, b in anticlockwise.items()}
        cells += [('m', [x, ~x]) for x in K if x >= 0]
        used = set()
        for x in K:
            if x in used: continue
            ring = [x]
            while clockwise[~ring[-1]] != x: ring.append(clockwise[~ring[-1]])
            used.update(ring)
            cells.append(('p', ring))
        comps = S.components()
        comp_of = {x: i for i, c in enumerate(comps) for x in c}
        chi = {i: data[2] for c, data in S.surface().items() for i in [comps.index(c)]}
        self.signature = []
        left = set(range(len(comps)))
        while left:
            start = min(left)
            x0 = next(x for x in K if comp_of[x] == start)
            orb = {comp_of[perm[a][x0]] for a in names}
            left -= orb
            kernel = [a for a in names if perm[a][x0] == x0]
            points, seen = [], set()
            for kind, ring in cells:
                if comp_of[ring[0]] not in orb or (kind, ring[0]) in seen: continue
                orbit_arcs = {perm[a][x] for x in ring for a in names}
                seen |= {(kind, x) for x in orbit_arcs}
                places = [x for x in ring[1:] + ring[:1] if any(perm[a][ring[0]] == x for a in names)]
                c = len(places)
                if kind != 'v' and c == 1: continue
                size = len({frozenset(perm[a][x] for x in ring) for a in names})
                assert size * c * len(kernel) == n
                one = [a for a in names if perm[a][ring[0]] == places[0]]
                holonomies = {tuple(sorted(mul(mul(b, a), inverse[b]) for a in one)) for b in names}
                points.append((kind == 'v', c, tuple(sorted(holonomies)), size))
            self.signature.append((Fraction(chi[start] * len(orb) * len(kernel), n), len(orb), tuple(sorted(points))))
        self.signature.sort()
