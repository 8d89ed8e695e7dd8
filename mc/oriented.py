''' Oriented arcs, half twists and relative homology in the reference model.

An oriented arc is ('e', label) (running along the edge from its tail to its head) or ('a', word).
The images of the oriented edges of a triangulation determine a mapping up to isotopy. '''

from mc import ref
from mc.ref import Tri, reduce_cyclic, canon, substitution, inv
from mc.spaces import relabelling

def data(T, s):
    if s[0] == 'e': return s[1], (), T.nxt[s[1]]
    w = s[1]
    return T.prv[w[0]], w, T.prv[~w[-1]]

def reduce(T, start, word, end):
    out = []
    for x in word:
        if out and out[-1] == ~x: out.pop()
        else: out.append(x)
    word = out
    i, j = 0, len(word)
    while i < j:
        x = word[i]
        if start == T.prv[x]: break
        start = T.nxt[~x] if start == x else ~x
        i += 1
    while i < j:
        x = word[j - 1]
        if end == T.prv[~x]: break
        end = T.nxt[x] if end == ~x else x
        j -= 1
    if i < j: return ('a', tuple(word[i:j]))
    assert start != end, 'trivial arc'
    return ('e', start if T.nxt[start] == end else ~end)

def reverse(s):
    return (s[0], ~s[1]) if s[0] == 'e' else ('a', inv(s[1]))

def forget(s):
    return ('e', max(s[1], ~s[1])) if s[0] == 'e' else canon(s)

def flip(T, x, s):
    a, b, c, d = T.square(x)
    i = max(x, ~x)
    if s[0] == 'e':
        if s[1] not in (x, ~x): return s
        return ('a', (~i,)) if s[1] == x else ('a', (i,))
    side = {'V1': 0, 'V3': 0, 'd': 1, 'V0': 1, 'a': 1, 'b': -1, 'V2': -1, 'c': -1}
    item = {}
    for lab, name in ((a, 'a'), (b, 'b'), (c, 'c'), (d, 'd')): item[lab] = name
    cv = {x: 'V2', a: 'V0', b: 'V1', ~x: 'V0', c: 'V2', d: 'V3'}
    w = s[1]
    letters = [y for y in w if y not in (x, ~x)]
    out = []
    def cross(i1, i2):
        s1, s2 = side[i1], side[i2]
        if s1 == 1 and s2 == -1: out.append(i)
        elif s1 == -1 and s2 == 1: out.append(~i)
    start, end = T.prv[w[0]], T.prv[~w[-1]]
    if not letters: return ('e', i) if w == (x,) else ('e', ~i)
    if letters[0] in item: cross(cv[start], item[letters[0]])
    out.append(letters[0])
    for y, z in zip(letters, letters[1:]):
        if z in item: cross(item[~y], item[z])
        out.append(z)
    if ~letters[-1] in item: cross(item[~letters[-1]], cv[end])
    return ('a', tuple(out))

def relabel(m, s):
    return ('e', m[s[1]]) if s[0] == 'e' else ('a', tuple(m[x] for x in s[1]))

def twist(T, c, k, s):
    ''' The right Dehn twist about the curve c to the power k. '''
    if k == 0 or ref.is_peripheral_word(T, c[1]): return s
    sub, corner = subst(T, c, k)
    start, w, end = data(T, s)
    word = list(inv(corner[start])) + [y for x in w for y in sub[x]] + list(corner[end])
    return reduce(T, start, word, end)

_subst = {}
def subst(T, c, k):
    key = (T.triples, c, k)
    if key not in _subst:
        if len(_subst) > 4000: _subst.clear()
        _subst[key] = substitution(T, c, k)
    return _subst[key]

# --- Half twists about edges with distinct ends ---------------------------------------------------

def around(T, e):
    ''' The letters crossed running anticlockwise around the tail of e from its left to its right. '''
    out, x = [], e
    while ~T.prv[x] != e:
        out.append(T.prv[x])
        x = ~T.prv[x]
    return tuple(out)

def half_substitution(T, e, sign):
    ''' (sub, ends): what replaces the letters e and ~e, and for each corner k at an end of e the (word, new corner) that replaces running out to k. '''
    assert T.vertex_of(e) != T.vertex_of(~e)
    A, B = around(T, e), around(T, ~e)
    sub = {}
    if sign > 0: sub[e] = A + (~e,) + inv(B)
    else: sub[e] = inv(B) + (~e,) + A
    sub[~e] = inv(sub[e])
    ends = {}
    for f in (e, ~e):
        for k in T.vertices()[T.vertex_of(f)]:
            word, x = [], k
            if sign > 0:
                while ~T.prv[x] != f:
                    word.append(T.prv[x])
                    x = ~T.prv[x]
                ends[k] = tuple(word), ~f
            else:
                while x != f:
                    word.append(x)
                    x = T.nxt[~x]
                ends[k] = tuple(word), T.nxt[f]
    return sub, ends

def half_once(T, e, sign, s):
    sub, ends = half_substitution(T, e, sign)
    start, w, end = data(T, s)
    pre, start2 = ends.get(start, ((), start))
    post, end2 = ends.get(end, ((), end))
    word = list(inv(pre)) + [y for x in w for y in sub.get(x, (x,))] + list(post)
    return reduce(T, start2, word, end2)

def half_curve(T, e, sign, c):
    sub, _ = half_substitution(T, e, sign)
    return canon(('c', reduce_cyclic([y for x in c[1] for y in sub.get(x, (x,))])))

def half(T, e, k, s):
    for _ in range(abs(k)): s = half_once(T, e, 1 if k > 0 else -1, s)
    return s

def half_strand(T, e, k, s):
    ''' The image of an unoriented strand. '''
    if s[0] == 'c':
        for _ in range(abs(k)): s = half_curve(T, e, 1 if k > 0 else -1, s)
        return s
    return forget(half(T, e, k, s))

# --- Relative homology --------------------------------------------------------------------------------

def chain(T, s):
    ''' The edge chain homologous to an oriented arc. '''
    v = [0] * T.zeta
    def add(x, k=1):
        if x >= 0: v[x] += k
        else: v[~x] -= k
    cur, w, end = data(T, s)
    for x in w:
        if cur != x: add(cur if T.nxt[cur] == x else ~x)  # Move to the tail of x.
        cur = T.nxt[~x]
    if cur != end: add(cur if T.nxt[cur] == end else ~end)
    return tuple(v)

def canonical_class(T, v):
    ''' A normal form modulo the boundaries of triangles: zero on a breadth first forest of the dual graph. '''
    v = list(v)
    phi = {}
    for root in range(len(T.triples)):
        if root in phi: continue
        phi[root] = 0
        queue = [root]
        for t in queue:
            for x in T.triples[t]:
                u = T.tri_of[~x]
                if u in phi: continue
                # The boundary chain sum(phi(t) dt) has coefficient phi(t) - phi(u) on x.
                val = v[x] if x >= 0 else -v[~x]
                phi[u] = phi[t] - val
                queue.append(u)
    return tuple(v[i] - (phi[T.tri_of[i]] - phi[T.tri_of[~i]]) for i in range(T.zeta))

def homologous(T, v, w):
    return canonical_class(T, [a - b for a, b in zip(v, w)]) == (0,) * T.zeta

# --- Actions of letters ---------------------------------------------------------------------------------

def edge_curve(T, e):
    from mc.moves import edge_curve
    return edge_curve(T, e)

def label_map(R, letter):
    return relabelling(R.zeta, letter[1]) if letter[0] == 'relabel' else {int(k): v for k, v in letter[1].items()}

def apply(R, letter, s):
    ''' The image of the oriented arc s of R under a letter (see moves.py). '''
    kind = letter[0]
    if kind == 'flip': return flip(R, letter[1], s)
    if kind == 'multi':
        for x in letter[1]:
            s = flip(R, x, s)
            R = R.flip(x)
        return s
    if kind in ('relabel', 'isometry'): return relabel(label_map(R, letter), s)
    if kind == 'none': return s
    if kind == 'twist': return twist(R, edge_curve(R, letter[1]), letter[2], s)
    if kind == 'half': return half(R, letter[1], letter[2], s)
    raise ValueError(letter)

def apply_strand(R, letter, s):
    ''' The image of the unoriented strand s. '''
    from mc import moves
    if letter[0] == 'half': return half_strand(R, letter[1], letter[2], s)
    if s[0] == 'c':
        [(t, _)] = moves.apply(R, letter, {s: 1}).items()
        return t
    return forget(apply(R, letter, s))

def images(R, word):
    ''' (target, the images of the oriented edges of R under a word): a complete isotopy invariant given the source. '''
    from mc import moves
    out = [('e', i) for i in range(R.zeta)]
    for l in word:
        out = [apply(R, l, s) for s in out]
        R = moves.target(R, l)
    return R, tuple(out)

def strand_images(R, word, S):
    from mc import moves
    out = list(S)
    for l in word:
        out = [apply_strand(R, l, s) for s in out]
        R = moves.target(R, l)
    return R, out

# --- Half twists about arbitrary arcs -------------------------------------------------------------------

_paths = {}
def to_edge(R, s):
    ''' (flips, S, e): a sequence of flips from R to S taking the arc s to the edge e. '''
    key = (R.triples, s)
    if key not in _paths:
        import heapq
        seen = set()
        queue = [(0 if s[0] == 'e' else len(s[1]), 0, (), R, s)]
        count = 1
        while True:
            n, _, word, S, t = heapq.heappop(queue)
            if t[0] == 'e': break
            for x in set(max(y, ~y) for y in t[1]):
                if not S.flippable(x): continue
                S2, t2 = S.flip(x), ref.flip_strand(S, x, t)
                k = (S2.key(), t2)
                if k in seen: continue
                seen.add(k)
                heapq.heappush(queue, (0 if t2[0] == 'e' else len(t2[1]), count, word + (x,), S2, t2))
                count += 1
        if len(_paths) > 4000: _paths.clear()
        _paths[key] = word, S, t[1]
    return _paths[key]

def half_about(R, arc, k, s, oriented=False):
    ''' The image of a strand (or oriented arc) under the right half twist about any arc with distinct ends to the power k. '''
    word, S, e = to_edge(R, arc)
    states = [R]
    for x in word:
        s = flip(states[-1], x, s) if oriented else ref.flip_strand(states[-1], x, s)
        states.append(states[-1].flip(x))
    s = half(S, e, k, s) if oriented else half_strand(S, e, k, s)
    for x, U in zip(reversed(word), reversed(states)):
        s = flip(U, ~x, s) if oriented else ref.flip_strand(U, ~x, s)
    return s
