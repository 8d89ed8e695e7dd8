''' Finite state spaces: triangulations modulo relabelling, bounded lamination vectors, words of moves. '''

from functools import lru_cache
from itertools import product

from mc.sut import curver
from mc.ref import Tri, Diagram, components, canon, kind_of, strand_vector, intersection, is_peripheral_word, vector
from mc import ref

def tri_of(T):
    ''' The reference triangulation of a curver one (through its public listing of triangles). '''
    return Tri([[edge.label for edge in triangle] for triangle in T])

def build(R):
    ''' The curver triangulation of a reference one. '''
    return curver.create_triangulation([tuple(t) for t in R.triples])

# --- Triangulations ---------------------------------------------------------------------------

def _canon_from(R, x):
    m, order = {}, [x]
    nxt_label = 0
    i = 0
    out = []
    seen_tri = set()
    stack = [x]
    while stack:
        y = stack.pop(0)
        if R.tri_of[y] in seen_tri: continue
        seen_tri.add(R.tri_of[y])
        t = (y, R.nxt[y], R.prv[y])
        row = []
        for z in t:
            if z not in m:
                m[z], m[~z] = nxt_label, ~nxt_label
                nxt_label += 1
            row.append(m[z])
        out.append(tuple(row))
        for z in t: stack.append(~z)
    return tuple(out), m

def canonical(R):
    ''' A canonical form of a connected triangulation under orientation preserving relabelling. '''
    return min(_canon_from(R, x)[0] for x in R.labels())

def canonical_any(R):
    ''' Canonical form of a possibly disconnected triangulation: the sorted canonical forms of its components. '''
    out = []
    for comp in R.components():
        out.append(min(_canon_from(R, x)[0] for x in comp))
    return tuple(sorted(out))

def flip_graph(R, limit=None):
    ''' All triangulations reachable by flips, modulo relabelling (breadth first, canonical representatives). '''
    start = canonical(R)
    seen = {start: 0}
    queue = [start]
    i = 0
    while i < len(queue):
        if limit is not None and len(queue) >= limit: break
        cur = Tri(queue[i]); i += 1
        for x in range(cur.zeta):
            if cur.flippable(x):
                c = canonical(cur.flip(x))
                if c not in seen:
                    seen[c] = len(seen)
                    queue.append(c)
    return queue if limit is None else queue[:limit]

SEEDS = {}
def seed_triangulation(g, n):
    ''' Some triangulation of S_{g,n} built without the code under test. '''
    if (g, n) in SEEDS: return SEEDS[(g, n)]
    if g == 0:
        if n == 3: t = [(0, 1, 2), (~0, ~2, ~1)]
        else: return add_puncture(seed_triangulation(0, n - 1), (0, n))
    elif n > 1:
        return add_puncture(seed_triangulation(g, n - 1), (g, n))
    else:
        # The 4g-gon with opposite... standard word a b A B c d C D ..., coned from its first vertex.
        word = []
        for i in range(g): word += [2*i, 2*i+1, ~(2*i), ~(2*i+1)]
        nxt = 2 * g
        t = []
        poly = list(word)
        while len(poly) > 3:
            t.append((poly[0], poly[1], ~nxt))
            poly = [nxt] + poly[2:]
            nxt += 1
        t.append(tuple(poly))
    SEEDS[(g, n)] = Tri(t)
    v = SEEDS[(g, n)].surface()
    assert [tuple(x)[:2] for x in v.values()] == [(g, n)], (g, n, v)
    return SEEDS[(g, n)]

def add_puncture(R, key=None):
    ''' Subdivide the first triangle. '''
    a, b, c = R.triples[0]
    z = R.zeta
    s, t, u = z, z + 1, z + 2
    T = Tri(list(R.triples[1:]) + [(a, ~u, t), (b, ~s, u), (c, ~t, s)])
    if key: SEEDS[key] = T
    return T

@lru_cache(maxsize=None)
def triangulations(g, n, limit=None):
    ''' All triangulations of S_{g,n} modulo relabelling, as tuples of triples. '''
    return tuple(flip_graph(seed_triangulation(g, n), limit))

def disjoint_union(*parts):
    out, offset = [], 0
    for p in parts:
        R = p if isinstance(p, Tri) else Tri(p)
        m = lambda x: x + offset if x >= 0 else x - offset
        out += [tuple(m(x) for x in t) for t in R.triples]
        offset += R.zeta
    return Tri(out)

def relabelling(zeta, k):
    ''' The k-th of a fixed deterministic family of signed relabellings. '''
    if k == 0: return {x: x for x in range(-zeta, zeta)}
    m = {}
    for i in range(zeta):
        if k == 1: j = zeta - 1 - i if i % 2 else ~(zeta - 1 - i)
        elif k == 2: j = ~i
        elif k == 3: j = (i + 1) % zeta
        else: j = ((i * 1 + k) % zeta) if (i + k) % 3 else ~((i + k) % zeta)
        m[i], m[~i] = j, ~j
    assert len(set(m.values())) == 2 * zeta
    return m

def labelled(t, k):
    R = Tri(t)
    return R.relabel(relabelling(R.zeta, k))

# --- Laminations ----------------------------------------------------------------------------------

def vectors(R, lo, hi, total=None):
    ''' All consistent weight vectors with lo <= weight <= hi (and bounded sum of absolute values), in order. '''
    zeta = R.zeta
    # Order the triangles for early pruning.
    tris_ready = {}
    for t in R.triples:
        k = max(max(x, ~x) for x in t)
        tris_ready.setdefault(k, []).append([max(x, ~x) for x in t])
    vec = [0] * zeta
    def rec(i, left):
        if i == zeta:
            yield tuple(vec)
            return
        for w in range(lo, hi + 1):
            if total is not None and abs(w) > left: continue
            vec[i] = w
            ok = True
            for a, b, c in tris_ready.get(i, ()):
                x, y, z = max(vec[a], 0), max(vec[b], 0), max(vec[c], 0)
                if (x + y + z) % 2 and x <= y + z and y <= x + z and z <= x + y:
                    ok = False
                    break
            if ok: yield from rec(i + 1, None if total is None else left - abs(w))
        vec[i] = 0
    yield from rec(0, total)

def strands_up_to(R, length, arcs=True, curves=True, peripheral=True):
    ''' All simple arcs and curves whose crossing word has at most the given length, shortest first. '''
    out = set()
    if arcs:
        for i in range(R.zeta): out.add(('e', i))
    # Depth first over reduced words; extend only simple prefixes is not sound for curves, so enumerate vectors instead.
    for v in vectors(R, 0, length, total=length):
        if not any(v): continue
        C = components(R, v)
        if len(C) == 1:
            [(s, m)] = C.items()
            if m == 1:
                k = kind_of(R, s)
                if (k == 'arc' and arcs) or (k == 'curve' and curves) or (k == 'peripheral' and peripheral): out.add(s)
    return sorted(out, key=lambda s: (0 if s[0] == 'e' else len(s[1]), s[0], str(s[1])))

def lam(T, R, comps):
    ''' The curver lamination with the given strands. '''
    return T(vector(R, comps if isinstance(comps, dict) else {comps: 1}))

def to_list(comps):
    return [[s[0], s[1] if s[0] == 'e' else list(s[1]), m] for s, m in sorted(comps.items(), key=str)]
def from_list(l):
    return {(k, w if k == 'e' else tuple(w)): m for k, w, m in l}

def disjointness(R, S):
    ''' The set of index pairs i < j of disjoint strands of S. '''
    return {(i, j) for i in range(len(S)) for j in range(i + 1, len(S)) if intersection(R, S[i], S[j]) == 0}

def systems(R, S, size):
    ''' All sets of exactly the given number of pairwise disjoint strands of S (as tuples of indices). '''
    D = disjointness(R, S)
    def rec(chosen, start):
        if len(chosen) == size:
            yield tuple(chosen)
            return
        for j in range(start, len(S)):
            if all((i, j) in D for i in chosen): yield from rec(chosen + [j], j + 1)
    yield from rec([], 0)

def pool(R, arc_length, curve_length):
    ''' All arcs with words up to one length and all curves (peripheral too) up to another. '''
    return [s for s in strands_up_to(R, max(arc_length, curve_length)) if (len(s[1]) <= curve_length if s[0] == 'c' else s[0] == 'e' or len(s[1]) <= arc_length)]
