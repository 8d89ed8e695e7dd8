''' Brute force isometries of reference triangulations. '''

from itertools import permutations, product

def extend(R, S, x, y):
    ''' The unique label map of the component of x that sends x to y and respects triangles and reversal, or None. '''
    m, stack = {}, [(x, y)]
    while stack:
        a, b = stack.pop()
        if a in m:
            if m[a] != b: return None
            continue
        m[a] = b
        stack += [(~a, ~b), (R.nxt[a], S.nxt[b])]
    return m if len(set(m.values())) == len(m) else None

def isometries(R, S):
    ''' All isometries from R to S, as label maps. '''
    A, B = R.components(), S.components()
    if len(A) != len(B): return []
    options = []
    for c in A:
        mine = []
        for j, d in enumerate(B):
            if len(c) != len(d): continue
            for y in d:
                m = extend(R, S, c[0], y)
                if m is not None: mine.append((j, m))
        options.append(mine)
    out = []
    def rec(i, used, m):
        if i == len(A):
            out.append(m)
            return
        for j, part in options[i]:
            if j not in used: rec(i + 1, used | {j}, {**m, **part})
    rec(0, frozenset(), {})
    return out

def from_partial(R, S, data):
    ''' The isometry R -> S extending data which is the identity on untouched components, or None. '''
    m = {}
    for x, y in data.items():
        if x in m:
            if m[x] != y: return None
            continue
        e = extend(R, S, x, y)
        if e is None: return None
        m.update(e)
    for x in R.labels():
        if x not in m:
            if x not in S.nxt or S.nxt[x] != R.nxt[x] or S.prv[x] != R.prv[x]: return None
            m[x] = x
    if sorted(m) != list(R.labels()) or sorted(m.values()) != list(S.labels()): return None
    return m
