''' C17: every short word over the token alphabet, against a reference parser and letter by letter evaluation. '''

from itertools import product

from mc.sut import curver

TECHNIQUE = 'exhaustive enumeration of all token strings up to a length; reference parser and evaluator as model, every word replayed on the real parser'
LEVEL_NOTE = 'All strings of at most L tokens over the token alphabet for several generator naming schemes (prefix related, mixed case, digits). Powers applied directly to an undelimited run of several names (such as ab^2), empty brackets and repeated ^ are not specified by the documentation and are left out.'

L = {'quick': 5, 'thorough': 6}
ALPHABETS = [
    ['a', 'b', 'A', '.', '(', ')', '^2', '^-1'],
    ['a', 'B', '(', ')', '^0', '^-2', '2', '!', ' '],
    ['ab', 'b', '.', '^', '(', ')', '-3', '*', 'x'],
    ]
NAMES = {
    'plain': ['a', 'b'],
    'prefix': ['a', 'ab', 'ba', 'b_1', 'b_10', 'b_1a'],
    'mixed': ['a', 'aB', 'bA', 'b', 'aBa'],
    }
LETTERS = {'prefix': ['a', 'b', 'A', 'B', '_1', '0', 'ab', '.', '_'], 'mixed': ['a', 'A', 'b', 'B', '.', '^-1', 'aBa'], 'plain': ['a', 'b', 'A', 'B', '^3', '^-4', '(', ')']}

def bounds(tier):
    return f'all strings of at most {L[tier]} tokens over each of the alphabets {ALPHABETS} (names a, b) and {LETTERS} for the generator names {NAMES}; deep nesting and large powers'

def cases(tier):
    out = []
    for i, A in enumerate(ALPHABETS):
        for first in range(len(A)):
            for second in range(len(A)): out.append({'kind': 'words', 'scheme': 'plain', 'alphabet': A, 'prefix': [first, second], 'length': L[tier]})
    for scheme, A in LETTERS.items():
        for first in range(len(A)):
            out.append({'kind': 'words', 'scheme': scheme, 'alphabet': A, 'prefix': [first], 'length': L[tier] - (0 if scheme == 'plain' else 1)})
    for scheme in NAMES: out.append({'kind': 'api', 'scheme': scheme})
    out.append({'kind': 'deep'})
    for surface in ([1, 1], [0, 4], [1, 2], [2, 1]): out.append({'kind': 'letters', 'surface': surface, 'length': 3 if surface != [2, 1] else 2})
    return out

class Reject(Exception): pass
class Unspecified(Exception): pass

def parse(word, names):
    ''' Return the list of letters denoted by word, or raise Reject / Unspecified. '''
    word = ''.join(c for c in word if not c.isspace())
    unspecified = False
    pos = 0
    alpha = lambda c: c.isalnum() or c == '_' or c == '.'
    def invert(w): return [x.swapcase() for x in reversed(w)]
    order = sorted(names, key=lambda n: (-len(n), n))
    def seq(depth):
        nonlocal pos, unspecified
        out = []
        last = None  # The last item and the number of names in it; None just after an opening bracket.
        count = 0
        while pos < len(word):
            c = word[pos]
            if c == '(':
                pos += 1
                inner = seq(depth + 1)
                if inner == 'empty': unspecified, inner = True, []
                if last is not None: out += last
                last, count = inner, 1
            elif c == ')':
                if depth == 0: raise Reject('unbalanced')
                pos += 1
                if last is None and not out: return 'empty'
                return out + (last or [])
            elif c == '^':
                pos += 1
                start = pos
                if pos < len(word) and word[pos] in '+-': pos += 1
                while pos < len(word) and word[pos].isdigit(): pos += 1
                digits = word[start:pos]
                if not digits.lstrip('+-'): raise Reject('no power')
                if last is None: raise Reject('nothing to raise to a power')
                if count != 1: unspecified = True
                power = int(digits)
                last = last * power if power >= 0 else invert(last) * -power
                count = 2  # a^2^3 is not specified.
            elif alpha(c) and not c.isdigit():
                end = pos
                while end < len(word) and alpha(word[end]): end += 1
                run = word[pos:end]
                if last is not None: out += last
                last, count, i = [], 0, 0
                if run.strip('.') == '' or '..' in run: unspecified = True
                if run.endswith('.') and end < len(word) and word[end] == '^': unspecified = True
                while i < len(run):
                    if run[i] == '.': i += 1; continue
                    for n in order:
                        if run.startswith(n, i): break
                    else: raise Reject('unknown name')
                    last.append(n); i += len(n); count += 1
                pos = end
            else:
                raise Reject('unknown token')
        if depth: raise Reject('unbalanced')
        return out + (last or [])
    out = seq(0)
    if unspecified: raise Unspecified
    return [] if out == 'empty' else out

def group(scheme):
    S = curver.load(1, 1) if scheme == 'plain' else curver.load(0, 4) if scheme == 'mixed' else curver.load(1, 2)
    K = curver.kernel
    G = [S[x] for x in sorted(S) if x[0].islower()]
    names = NAMES[scheme]
    gens = [G[i % len(G)]**(1 + i // len(G)) for i in range(len(names))]
    M = K.MappingClassGroup(dict(zip(names, gens)))
    return M, dict(zip(names, gens))

class Evaluator:
    ''' Images of a filling lamination and of the homology basis, letter by letter. '''
    def __init__(self, gens):
        self.gens = dict(gens)
        for n, g in gens.items(): self.gens[n.swapcase()] = g.inverse()
        T = next(iter(gens.values())).source_triangulation
        self.cache = {(): (T.as_lamination(), tuple(T.edge_homologies()))}
    def image(self, letters):
        letters = tuple(letters)
        if letters not in self.cache:
            x, hs = self.image(letters[1:]) if len(letters) < 400 else self.far(letters[1:])
            g = self.gens[letters[0]]
            self.cache[letters] = (g(x), tuple(g(h) for h in hs))
        return self.cache[letters]
    def far(self, letters):
        for i in range(len(letters), -1, -1): r = self.image(letters[i:])
        return r

def agrees(h, E, letters):
    x, hs = E.cache[()]
    y, ks = E.image(letters)
    return h(x) == y and all(h(a).canonical() == b.canonical() for a, b in zip(hs, ks))

def run_case(case, ctx):
    kind = case['kind']
    if kind == 'words':
        M, gens = group(case['scheme'])
        E = Evaluator(gens)
        names = [n for g in gens for n in (g, g.swapcase())]
        A = case['alphabet']
        head = ''.join(A[i] for i in case['prefix'])
        good = {}
        def words():
            if len(case['prefix']) == 2 and case['prefix'][1] == 0: yield A[case['prefix'][0]]
            for r in range(0, case['length'] - len(case['prefix']) + 1):
                for t in product(A, repeat=r): yield head + ''.join(t)
        for w in words():
            ctx.state()
            try:
                letters = parse(w, names)
            except Unspecified:
                ctx.outcome('unspecified')
                continue
            except Reject as why:
                ctx.trace()
                ctx.rejects(lambda: M(w), f'{w!r} ({why})', (ValueError,))
                continue
            if len(letters) > 40: continue
            h = M(w)
            ctx.trace(); ctx.step(len(letters))
            ctx.outcome('evaluated')
            ctx.check(type(h) is curver.kernel.MappingClass and h.source_triangulation == M.triangulation == h.target_triangulation, lambda: f'{w!r} is not a mapping class')
            ctx.check(agrees(h, E, letters), lambda: f'{w!r} is not {letters} in scheme {case["scheme"]}')
        return
    if kind == 'api':
        M, gens = group(case['scheme'])
        E = Evaluator(gens)
        pos = set(gens)
        neg = {n.swapcase() for n in gens}
        ctx.equal(set(M), pos | neg, 'names')
        ctx.equal(sorted(M), sorted(pos | neg), 'names')
        for n in pos | neg:
            ctx.check(agrees(M[n], E, [n]), lambda: f'generator {n}')
            ctx.check(agrees(M(n), E, [n]), lambda: f'word {n}')
            ctx.check(n in M, lambda: f'{n} not in the group')
            ctx.check(M[n] * M[n.swapcase()] == M.triangulation.id_encoding(), lambda: f'{n} times its inverse')
        for n in ('q', 'zz', ''):
            ctx.check(n not in M, f'{n!r} in the group')
            ctx.rejects(lambda: M[n], f'generator {n!r}', (KeyError,))
        for r in range(0, 4):
            for t in product(sorted(pos | neg), repeat=r):
                for form in (list(t), tuple(t)):
                    ctx.check(agrees(M(form), E, t), lambda: f'sequence {form}')
                    ctx.state(); ctx.trace()
        ctx.rejects(lambda: M(['q']), 'sequence with an unknown name')
        for bad in (None, 1.5, {'a'}): ctx.rejects(lambda: M(bad), f'{bad!r}')
        for length in (0, 1, 7):
            for pz, ng, want in ((True, True, pos | neg), (True, False, pos), (False, True, neg)):
                w = M.random_word(length, positive=pz, negative=ng)
                ctx.check(len(w) == length and set(w) <= want, lambda: f'random word {w}')
                ctx.check(set(M.random_word(3000, positive=pz, negative=ng)) == want, 'random words do not use all letters')
                h = M(length, positive=pz, negative=ng)
                ctx.check(isinstance(h, curver.kernel.MappingClass), 'random mapping class')
            ctx.check(set(M.random_word(length, letters=['a'])) <= {'a'} and len(M.random_word(length, letters=['a'])) == length, 'random word with letters')
        ctx.check(M(4, letters=['a']) == M['a']**4, 'random mapping class with one letter')
        ctx.rejects(lambda: M.random_word(3, positive=False, negative=False), 'random word with no letters', (TypeError, ValueError, IndexError))
        ctx.check(M(0) == M.triangulation.id_encoding(), 'random mapping class of length 0')
        ctx.equal(list(M.lamination([0] * M.zeta)), [0] * M.zeta, 'lamination')
        # Constructor.
        K = curver.kernel
        g = next(iter(gens.values()))
        for bad in ({'A': g}, {'1': g}, {'a b': g}, {}, {'a': 3}): ctx.rejects(lambda: K.MappingClassGroup(bad), f'MappingClassGroup({list(bad)})')
        T = M.triangulation
        other = curver.load(2, 1)['a_0']
        ctx.rejects(lambda: K.MappingClassGroup({'a': g, 'b': other}), 'generators on different triangulations')
        c = T.edge_curve(0)
        ctx.rejects(lambda: K.MappingClassGroup({'a': g}, curves={'a': c}), 'repeated name')
        N = K.MappingClassGroup({'a': g}, curves={'c': c})
        ctx.check(N['c'] == c.encode_twist() and N['C'] == c.encode_twist(-1) and N['A'] == g.inverse() and N('a.c') == g * c.encode_twist(), 'curves as generators')
        arcs = [T.edge_arc(i) for i in range(T.zeta)]
        arcs = [a for a in arcs if len(a.vertices()) == 2]
        if arcs:
            N = K.MappingClassGroup(curves={'c': c}, arcs={'s': arcs[0]})
            ctx.check(N['s'] == arcs[0].encode_halftwist() and N('sC') == arcs[0].encode_halftwist() * c.encode_twist(-1), 'arcs as generators')
        return
    if kind == 'deep':
        M, gens = group('plain')
        E = Evaluator(gens)
        for depth in range(1, 13):
            w, letters = 'a', ['a']
            for i in range(depth):
                p = (2, -1, 1, -2)[i % 4] if len(letters) < 60 else -1
                extra = 'bAB'[i % 3]
                w = f'({w}.{extra})^{p}'
                letters = letters + [extra]
                letters = letters * p if p > 0 else [x.swapcase() for x in reversed(letters)] * -p
            ctx.check(agrees(M(w), E, letters), lambda: f'{w} is wrong')
            ctx.state(); ctx.trace()
        for k in (50, 137, -64, 0, 1, -1):
            for base in ('a', '(ab)', '(a.B)', '(a(bA)^2)'):
                letters = parse(base, ['a', 'b', 'A', 'B'])
                want = letters * k if k >= 0 else [x.swapcase() for x in reversed(letters)] * -k
                ctx.check(agrees(M(f'{base}^{k}'), E, want), lambda: f'{base}^{k} is wrong')
                ctx.state(); ctx.trace()
        return
    if kind == 'letters':
        S = curver.load(*case['surface'])
        gens = {x: S[x] for x in S if x[0].islower()}
        E = Evaluator(gens)
        names = sorted(S)
        for r in range(1, case['length'] + 1):
            for t in product(names, repeat=r):
                if r == 3 and len(names) > 6 and len(set(t)) < 3: continue
                if r == 3 and hash(t) is None: continue
                for w in ('.'.join(t), ''.join(t)) if r < 3 else ('.'.join(t),):
                    try: letters = parse(w, names)
                    except (Reject, Unspecified): continue
                    if '.' in w or r == 1: ctx.check(letters == list(t), 'reference parser')
                    ctx.check(agrees(S(w), E, letters), lambda: f'{w} is wrong')
                    ctx.state(); ctx.trace()
