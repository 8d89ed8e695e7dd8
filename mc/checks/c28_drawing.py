''' C28: what the viewer draws, read back from a recording canvas, is the lamination. '''

import itertools
import os
import random
import tkinter
import tkinter.filedialog
import tkinter.font
import tkinter.messagebox
import tkinter.ttk
from fractions import Fraction
from math import floor, ceil

from mc.spaces import *

# --- Stand-ins for the parts of Tk that need a display ------------------------------------------------

class Variable:
    def __init__(self, master=None, value=None, name=None): self.value, self.callbacks = value, []
    def get(self): return self.value
    def set(self, value):
        self.value = value
        for f in self.callbacks: f()
    def trace(self, *args): self.callbacks.append(args[-1])
    trace_add = trace_variable = trace

class Font:
    def __init__(self, *args, **kwds): self.options = kwds
    def configure(self, **kwds): self.options.update(kwds)
    config = configure

for name in ('BooleanVar', 'IntVar', 'StringVar', 'DoubleVar', 'Variable'): setattr(tkinter, name, Variable)
tkinter.font.Font = Font

import curver.application  # noqa: E402
import curver.application.main  # noqa: E402
from curver.application import options as app_options  # noqa: E402

class Note:
    def __init__(self, w, h): self.w, self.h = w, h
    def winfo_width(self): return self.w
    def winfo_height(self): return self.h
    def __getattr__(self, name): return lambda *args, **kwds: None

class Canvas:
    ''' Records the items on a Tk canvas. '''
    def __init__(self, *args, **kwds):
        self.saved = []
        self.items, self.count, self.order = {}, 0, []
    def _create(self, kind, args, kwds):
        c = []
        def flatten(x):
            if isinstance(x, (int, float)): c.append(float(x))
            else:
                for y in x: flatten(y)
        flatten(args)
        if len(c) % 2 or len(c) < {'oval': 4, 'line': 4, 'polygon': 6, 'text': 2}[kind]: raise tkinter.TclError('wrong # coordinates')
        tags = kwds.pop('tags', kwds.pop('tag', ()))
        self.count += 1
        self.items[self.count] = {'kind': kind, 'coords': c, 'tags': {tags} if isinstance(tags, str) else set(tags), **kwds}
        self.order.append(self.count)
        return self.count
    def create_oval(self, *args, **kwds): return self._create('oval', args, kwds)
    def create_line(self, *args, **kwds): return self._create('line', args, kwds)
    def create_polygon(self, *args, **kwds): return self._create('polygon', args, kwds)
    def create_text(self, *args, **kwds): return self._create('text', args, kwds)
    def find(self, what):
        if what == 'all': return list(self.order)
        if isinstance(what, int): return [what] if what in self.items else []
        return [i for i in self.order if what in self.items[i]['tags']]
    find_withtag = find
    def itemconfig(self, what, **kwds):
        for i in self.find(what): self.items[i].update(kwds)
    itemconfigure = itemconfig
    def coords(self, what, *args):
        [i] = self.find(what)
        if not args: return list(self.items[i]['coords'])
        if len(args) == 1: args = args[0]
        c = [float(x) for x in args]
        if len(c) != len(self.items[i]['coords']): raise tkinter.TclError('wrong # coordinates')
        self.items[i]['coords'] = c
    def move(self, what, dx, dy):
        for i in self.find(what): self.items[i]['coords'] = [x + (dx, dy)[k % 2] for k, x in enumerate(self.items[i]['coords'])]
    def scale(self, what, x0, y0, sx, sy):
        for i in self.find(what): self.items[i]['coords'] = [((x0, y0)[k % 2] + (x - (x0, y0)[k % 2]) * (sx, sy)[k % 2]) for k, x in enumerate(self.items[i]['coords'])]
    def delete(self, *whats):
        for what in whats:
            for i in self.find(what):
                del self.items[i]
                self.order.remove(i)
    def tag_raise(self, what, above=None):
        up = set(self.find(what))
        self.order = [i for i in self.order if i not in up] + [i for i in self.order if i in up]
    lift = tag_raise
    def bbox(self, *whats):
        cs = [self.items[i]['coords'] for what in whats for i in self.find(what) if self.items[i].get('state') != 'hidden']
        if not cs: return None
        xs, ys = [x for c in cs for x in c[::2]], [y for c in cs for y in c[1::2]]
        return (floor(min(xs)) - 1, floor(min(ys)) - 1, ceil(max(xs)) + 1, ceil(max(ys)) + 1)
    def winfo_width(self): return 1
    winfo_height = winfo_width
    def postscript(self, **kwds):
        if kwds.get('file') == BAD: raise IOError(BAD)
        self.saved.append(kwds.get('file'))
    def __getattr__(self, name):
        if name.startswith('__'): raise AttributeError(name)
        return lambda *args, **kwds: None

BAD, GOOD = '/bad', '/good'  # Nothing is ever written to these.

class Widget:
    ''' Any other widget. '''
    def __init__(self, *args, **kwds): self.log = []
    def __getattr__(self, name):
        if name.startswith('__'): raise AttributeError(name)
        return lambda *args, **kwds: self.log.append((name, args, kwds))

class Notebook(Widget):
    def __init__(self, *args, **kwds):
        super().__init__()
        self.tabs, self.current = [], 0
        Root.last.notebook = self
    def add(self, child, **kwds): self.tabs.append((kwds.get('text'), child))
    def index(self, what):
        if what == 'end': return len(self.tabs)
        return self.current if what == 'current' else what
    def select(self, what=None): self.current = self.current if what is None else what
    def winfo_width(self): return 754
    def winfo_height(self): return 562

class Menu(Widget):
    def __init__(self, *args, **kwds):
        super().__init__()
        self.entries = []
    def add(self, kind, **kwds): self.entries.append((kind, kwds))
    def add_command(self, **kwds): self.add('command', **kwds)
    def add_radiobutton(self, **kwds): self.add('radiobutton', **kwds)
    def add_checkbutton(self, **kwds): self.add('checkbutton', **kwds)
    def add_cascade(self, **kwds): self.add('cascade', **kwds)
    def add_separator(self, **kwds): self.add('separator', **kwds)
    def flat(self, path=()):
        for kind, kwds in self.entries:
            if kind == 'cascade': yield from kwds['menu'].flat(path + (kwds['label'],))
            elif kind != 'separator': yield path + (kwds['label'],), kind, kwds

class Root(Widget):
    ''' The root window: the main loop runs the given script. '''
    script, last = None, None
    def __init__(self, *args, **kwds):
        super().__init__()
        self.bindings, self.protocols, self.menu, self.ended = {}, {}, None, False
        self._w = '.'
        self.tk = Widget()
        Root.last = self
    def bind(self, key, f, add=None): self.bindings[key] = f
    bind_all = bind
    def protocol(self, name, f=None): self.protocols[name] = f
    def config(self, **kwds): self.menu = kwds.get('menu', self.menu)
    configure = config
    def destroy(self): self.ended = True
    def mainloop(self): Root.script(self)

class Event:
    def __init__(self, key): self.keysym = key

class Photo:
    def __init__(self, *args, **kwds):
        if 'file' in kwds and not os.path.exists(kwds['file']): raise tkinter.TclError('no such file')

dialogs = []
saves = []
def _dialog(name): return lambda *args, **kwds: dialogs.append((name, args, kwds))
for name in ('showwarning', 'showinfo', 'showerror'): setattr(tkinter.messagebox, name, _dialog(name))
tkinter.filedialog.asksaveasfilename = lambda *args, **kwds: saves.pop()
tkinter.Tk, tkinter.Canvas, tkinter.Menu, tkinter.PhotoImage = Root, Canvas, Menu, Photo
tkinter.ttk.Style, tkinter.ttk.Notebook = Widget, Notebook

class Parent:
    def __init__(self): self.drawings = []
    def redraw(self):
        for d in self.drawings: d.redraw()

def draw(item, size=(754, 562)):
    parent = Parent()
    options = curver.application.Options(parent)
    canvas = Canvas()
    d = curver.application.main.Drawing(Note(*size), canvas, item, options)
    parent.drawings.append(d)
    return d, canvas, options

# --- Reading the picture ------------------------------------------------------------------------------

def sub(a, b): return (a[0] - b[0], a[1] - b[1])
def cross(a, b): return a[0] * b[1] - a[1] * b[0]
def pos(v): return tuple(v.vector)
def near(a, b, tol): return abs(a[0] - b[0]) < tol and abs(a[1] - b[1]) < tol
def pairs(c): return list(zip(c[::2], c[1::2]))

class Picture:
    ''' The polygon that is drawn: where the sides of the triangles are. '''
    def __init__(self, R, d, canvas, ctx, text):
        self.R, self.canvas = R, canvas
        ctx.equal(sorted(e.label for e in d.edges), sorted(R.labels()), f'{text}: the drawn edges')
        self.ends, self.item = {}, {}
        for e in d.edges: self.ends[e.label], self.item[e.label] = frozenset(e.vertices), e.drawn
        self.tol = 1e-6 * max(1, max(abs(x) for v in d.vertices for x in pos(v)))
        self.head, self.tail = {}, {}
        self.sides = {}
        for t in R.triples:
            vs = frozenset().union(*(self.ends[x] for x in t))
            ctx.check(len(vs) == 3 and all(len(self.ends[x] & self.ends[y]) == 1 for x, y in zip(t, t[1:] + t[:1])), lambda: f'{text}: {t} is not drawn as a triangle')
            for i, x in enumerate(t):
                [h] = self.ends[x] & self.ends[t[i-2]]
                [s] = self.ends[x] & self.ends[t[i-1]]
                self.head[x], self.tail[x] = pos(h), pos(s)
        signs = {cross(sub(self.head[t[0]], self.tail[t[0]]), sub(self.head[t[1]], self.tail[t[0]])) for t in R.triples}
        ctx.check(min(signs) > self.tol or max(signs) < -self.tol, lambda: f'{text}: triangles are drawn with different orientations')
        self.orient = 1 if min(signs) > 0 else -1
        self.inner = {x for x in R.labels() if near(self.head[x], self.tail[~x], self.tol) and near(self.tail[x], self.head[~x], self.tol)}
        ctx.equal(len(self.inner) // 2, len(R.triples) - len(R.components()), f'{text}: number of glued edges')
        for s, t in itertools.combinations(R.triples, 2):
            ctx.check(not self.overlap(s, t), lambda: f'{text}: the triangles {s} and {t} overlap')
        # The polygons of the canvas are these triangles.
        polys = [pairs(canvas.items[i]['coords']) for i in canvas.find('polygon')]
        ctx.equal(len(polys), len(R.triples), f'{text}: number of drawn triangles')
        self.has_polygon = lambda t: any(all(any(near(p, self.tail[x], self.tol) for p in c) for x in t) and len(c) == 3 for c in polys)
        for t in R.triples: ctx.check(self.has_polygon(t), lambda: f'{text}: no triangle {t}')
        for x in R.labels():
            for k, i in enumerate(self.item[x]):
                c = pairs(canvas.items[i]['coords'])
                want = [self.tail[x], self.head[x]]
                ctx.check(any(near(c[0], w[0], self.tol) and (k == 0 or near(c[1], w[1], self.tol)) for w in (want, want[::-1])), lambda: f'{text}: edge {x} is drawn at {c}')
                if k == 0: ctx.check(abs(cross(sub(c[1], want[0]), sub(want[1], want[0]))) < self.tol * self.scale(x), lambda: f'{text}: edge {x} is drawn at {c}')
    def scale(self, x):
        a = sub(self.head[x], self.tail[x])
        return abs(a[0]) + abs(a[1]) + 1
    def overlap(self, s, t):
        for u, v in ((s, t), (t, s)):
            for x in u:
                d = sub(self.head[x], self.tail[x])
                side = [self.orient * cross(d, sub(self.tail[y], self.tail[x])) for y in v]
                if max(side) <= self.tol * self.scale(x): return False
        return True
    def inside(self, t, p):
        return all(self.orient * cross(sub(self.head[x], self.tail[x]), sub(p, self.tail[x])) >= -self.tol * self.scale(x) for x in t)
    def fraction(self, x, p):
        ''' The fraction along the side x at which p lies, or None. '''
        d, e = sub(self.head[x], self.tail[x]), sub(p, self.tail[x])
        n = d[0] * d[0] + d[1] * d[1]
        f = (d[0] * e[0] + d[1] * e[1]) / n
        if abs(cross(d, e)) > self.tol * self.scale(x) or f < -1e-7 or f > 1 + 1e-7: return None
        return f

def normal(v, t):
    ''' ([strands cutting off the corner between t[i] and t[i+1]], [strands from that corner to the opposite side]). '''
    w = [max(v[max(x, ~x)], 0) for x in t]
    for i in range(3):
        if w[i] > w[i-1] + w[i-2]:  # The corner opposite side i is between the sides i+1 and i+2.
            out, ends = [0, 0, 0], [0, 0, 0]
            ends[i-2] = w[i] - w[i-1] - w[i-2]
            out[i], out[i-1] = w[i-2], w[i-1]
            return out, ends
    return [(w[i] + w[i-2] - w[i-1]) // 2 if isinstance(w[0] + w[1] + w[2], int) else (w[i] + w[i-2] - w[i-1]) / 2 for i in range(3)], [0, 0, 0]

def read_thin(P, v, ctx, text):
    R = P.R
    arcs = {t: [] for t in R.triples}
    for i in P.canvas.find('curve'):
        item = P.canvas.items[i]
        c = pairs(item['coords'])
        where = [t for t in R.triples if all(P.inside(t, p) for p in c)]
        ctx.check(len(where) == 1 and item['kind'] == 'line', lambda: f'{text}: the component {c} is in the triangles {where}')
        arcs[where[0]].append(c)
    fractions = {x: [] for x in R.labels()}
    parallel = {i: 0 for i in range(R.zeta)}
    for t in R.triples:
        found = {}  # {(side, side) or (corner, side) or ('parallel', side): [(fraction, fraction)]}
        for c in arcs[t]:
            ends = []
            for p in (c[0], c[-1]):
                at = [j for j in range(3) if near(p, P.head[t[j]], P.tol)]
                if at: ends.append(('corner', at[0], 0.0))
                else:
                    on = [(j, P.fraction(t[j], p)) for j in range(3) if P.fraction(t[j], p) is not None]
                    ctx.check(len(on) == 1, lambda: f'{text}: the component {c} of {t} does not end on its boundary')
                    ends.append(('side', on[0][0], on[0][1]))
            kinds = sorted(ends)
            if kinds[0][0] == kinds[1][0] == 'corner':
                [j] = [j for j in range(3) if {kinds[0][1], kinds[1][1]} == {j, (j + 2) % 3}]
                found.setdefault(('parallel', j), []).append(None)
            elif kinds[0][0] == 'corner':
                ctx.check(kinds[1][1] == (kinds[0][1] + 2) % 3, lambda: f'{text}: an arc of {t} leaves a corner through an adjacent side')
                found.setdefault(('corner', kinds[0][1]), []).append((kinds[1][2],))
            else:
                j, k = kinds[0][1], kinds[1][1]
                ctx.check(j != k, lambda: f'{text}: an arc of {t} returns to a side')
                if (j + 1) % 3 != k: kinds = kinds[::-1]
                found.setdefault(('cut', kinds[0][1]), []).append((kinds[0][2], kinds[1][2]))
            for end in kinds:
                if end[0] == 'side': fractions[t[end[1]]].append(end[2])
        cut, ends = normal(v, t)
        ctx.equal([len(found.get(('cut', j), ())) for j in range(3)], cut, lambda: f'{text}: strands around the corners of {t}')
        ctx.equal([len(found.get(('corner', j), ())) for j in range(3)], ends, lambda: f'{text}: strands ending at the corners of {t}')
        for j in range(3):
            parallel[max(t[j], ~t[j])] += len(found.get(('parallel', j), ()))
            # Nested: the strands nearest to the corner between sides j and j + 1 are those nearest to it on both sides.
            near_corner = sorted(found.get(('cut', j), ()), key=lambda f: -f[0])
            ctx.check(all(a[1] < b[1] for a, b in zip(near_corner, near_corner[1:])), lambda: f'{text}: strands around a corner of {t} cross')
            inner = [f[0] for f in found.get(('corner', (j + 1) % 3), ())]
            left, right = [f[1] for f in found.get(('cut', (j + 2) % 3), ())], [f[0] for f in found.get(('cut', j), ())]
            order = [left, inner, right]
            flat = [x for part in order for x in sorted(part)]
            ctx.check(all(b - a > 1e-6 for a, b in zip([0.0] + flat, flat + [1.0])), lambda: f'{text}: the strands through side {t[j]} are at {order}')
    for i in range(R.zeta):
        a, b = sorted(fractions[i]), sorted(1 - f for f in fractions[~i])
        ctx.equal((len(a), len(b)), (max(v[i], 0),) * 2, lambda: f'{text}: strands through the two sides of edge {i}')
        ctx.check(all(abs(x - y) < 1e-6 for x, y in zip(a, b)), lambda: f'{text}: strands through edge {i} do not match up: {a} and {b}')
        ctx.equal(parallel[i], max(-v[i], 0), lambda: f'{text}: arcs parallel to edge {i}')

def read_thick(P, v, ctx, text):
    R = P.R
    bands = {t: [] for t in R.triples}
    for i in P.canvas.find('curve'):
        item = P.canvas.items[i]
        c = pairs(item['coords'])
        where = [t for t in R.triples if all(P.inside(t, p) for p in c)]
        ctx.check(len(where) == 1 and item['kind'] == 'polygon', lambda: f'{text}: the band {c} is in the triangles {where}')
        bands[where[0]].append(c)
    cover = {x: [] for x in R.labels()}
    parallel = {x: 0 for x in R.labels()}
    for t in R.triples:
        found = {}
        for c in bands[t]:
            corners = {j for j in range(3) for p in c if near(p, P.head[t[j]], P.tol)}
            hits = {}
            for p in c:
                if any(near(p, P.head[t[j]], P.tol) for j in range(3)): continue
                for j in range(3):
                    f = P.fraction(t[j], p)
                    if f is not None: hits.setdefault(j, []).append(f)
            spans = {j: (min(f), max(f)) for j, f in hits.items()}
            if len(corners) == 2 and not spans:
                [j] = [j for j in range(3) if corners == {j, (j + 2) % 3}]
                key = ('parallel', j)
                parallel[t[j]] += 1
            elif len(corners) == 1 and len(spans) == 1:
                [j], [k] = corners, spans
                ctx.check(k == (j + 2) % 3, lambda: f'{text}: an arc of {t} leaves a corner through an adjacent side')
                key = ('corner', j)
            else:
                ctx.check(not corners and len(spans) == 2, lambda: f'{text}: band {c} of {t}')
                j, k = spans
                key = ('cut', j if (j + 1) % 3 == k else k)
            ctx.check(key not in found, lambda: f'{text}: two bands {key} in {t}')
            found[key] = spans
        cut, ends = normal(v, t)
        for j in range(3):
            ctx.equal((('cut', j) in found, ('corner', j) in found), (cut[j] > 0, ends[j] > 0), lambda: f'{text}: bands around a corner of {t}')
            # The bands through side j in order along it, with their weights.
            order = [(('cut', (j + 2) % 3), cut[j-1]), (('corner', (j + 1) % 3), ends[j-2]), (('cut', j), cut[j])]
            order = [(found[key][j], w) for key, w in order if w]
            total = sum(w for _, w in order)
            if not order: continue
            lo, hi = order[0][0][0], order[-1][0][1]
            ctx.check(0 < lo < hi < 1, lambda: f'{text}: bands through side {t[j]} at {order}')
            here = lo
            for (a, b), w in order:
                there = here + (hi - lo) * float(w) / float(total)
                ctx.check(abs(a - here) < 1e-6 and abs(b - there) < 1e-6, lambda: f'{text}: bands through side {t[j]} at {order}')
                here = there
            cover[t[j]] = [lo, hi]
            ctx.equal(total, v[max(t[j], ~t[j])], lambda: f'weight of {t[j]}')
    for i in range(R.zeta):
        a, b = cover[i], [1 - f for f in cover[~i]][::-1]
        ctx.check(len(a) == len(b) and all(abs(x - y) < 1e-6 for x, y in zip(a, b)), lambda: f'{text}: bands through edge {i} do not match up: {a} and {b}')
        ctx.equal(parallel[i] + parallel[~i] > 0, v[i] < 0, lambda: f'{text}: bands parallel to edge {i}')

def read(R, v, d, canvas, options, ctx, text, size, fits=True):
    ''' Check everything that can be seen. '''
    P = Picture(R, d, canvas, ctx, text)
    thick = any(isinstance(w, (Fraction, float)) for w in v) or max(abs(w) for w in v) > 1000
    (read_thick if thick else read_thin)(P, v, ctx, text)
    # The vertices.
    ovals = [pairs(canvas.items[i]['coords']) for i in canvas.find('oval')]
    ctx.equal(len(ovals), len(d.vertices), f'{text}: number of vertices')
    for x in R.labels(): ctx.check(any(near(((a[0] + b[0]) / 2, (a[1] + b[1]) / 2), P.head[x], P.tol) for a, b in ovals), f'{text}: vertex of {x}')
    if fits:
        w, h = size[0] - 54, size[1] - 62
        for p in P.head.values(): ctx.check(0 <= p[0] <= w and 0 <= p[1] <= h, lambda: f'{text}: {p} is not on the canvas')
    # Hidden edges and orientations.
    ways = set()
    for x in R.labels():
        states = {canvas.items[i].get('state', 'normal') for i in P.item[x]}
        ctx.equal(states, {'hidden' if x in P.inner and not options.show_internals else 'normal'}, lambda: f'{text}: state of edge {x}')
        arrows = [i for i in P.item[x] if canvas.items[i].get('arrow') in ('first', 'last', 'both')]
        ctx.equal(bool(arrows), options.show_orientations and (x >= 0 or x not in P.inner), lambda: f'{text}: arrow of edge {x}')
        for i in arrows:
            c = pairs(canvas.items[i]['coords'])
            if canvas.items[i]['arrow'] == 'first': c = c[::-1]
            a, b = sub(c[-1], c[0]), sub(P.head[x], P.tail[x])
            ways.add((a[0] * b[0] + a[1] * b[1] > 0) == (x >= 0))
    ctx.check(len(ways) <= 1, lambda: f'{text}: the orientations of the edges are inconsistent')
    # Labels: the ones on top are those that are read.
    shown = [canvas.items[i] for i in canvas.find('label') if canvas.items[i].get('fill') == 'black']
    every = [canvas.items[i] for i in canvas.find('label')]
    for x in R.labels():
        m = ((P.head[x][0] + P.tail[x][0]) / 2, (P.head[x][1] + P.tail[x][1]) / 2)
        here = [t for t in shown if near(t['coords'], m, P.tol)]
        ctx.equal(len(here), 1, lambda: f'{text}: number of labels on edge {x}')
        i = max(x, ~x)
        got = here[0]['text']
        if options.label_edges == app_options.LABEL_EDGES_NONE: ctx.equal(got, '', f'{text}: label of {x}')
        elif options.label_edges == app_options.LABEL_EDGES_INDEX: ctx.equal(str(got), str(i), lambda: f'{text}: label of {x}')
        elif options.label_edges == app_options.LABEL_EDGES_GEOMETRIC: ctx.equal(str(got), str(v[i]), lambda: f'{text}: label of {x}')
        else:
            total = sum(v)
            if total == 0: ctx.equal(float(got), 0.0, f'{text}: label of {x}')
            else: ctx.check(abs(float(got) * 2 - float(v[i]) / float(total)) < 1e-9, lambda: f'{text}: label {got} of {x}')
    for t in every: ctx.check(any(abs(t['coords'][0] - s['coords'][0]) < 5 and abs(t['coords'][1] - s['coords'][1]) < 5 and t['text'] == s['text'] for s in shown), lambda: f'{text}: stray label {t}')
    # Layers.
    layer = {}
    for k, i in enumerate(canvas.order):
        for tag in ('polygon', 'line', 'oval', 'curve', 'label'):
            if tag in canvas.items[i]['tags']: layer.setdefault(tag, []).append(k)
    here = -1
    for tag in ('polygon', 'line', 'oval', 'curve', 'label'):
        if tag in layer:
            ctx.check(min(layer[tag]) > here, lambda: f'{text}: {tag} is drawn below something else')
            here = max(layer[tag])
    ctx.state(); ctx.trace()

# --- The exploration ------------------------------------------------------------------------------------

BATCH = 1
# (surface, triangulations, labellings, weights from, to, sum of the absolute values)
LAMS = {
    'quick': [((0, 3), 9, 1, -3, 4, None), ((0, 3), 9, 3, -2, 2, None), ((1, 1), 2, 3, -2, 3, None), ((0, 4), 9, 1, -1, 3, 5), ((1, 2), 9, 1, -1, 3, 5), ((0, 5), 4, 1, -1, 2, 3), ((2, 1), 4, 1, -1, 2, 3), ((1, 3), 3, 1, -1, 2, 3)],
    'thorough': [((0, 3), 9, 4, -5, 8, None), ((1, 1), 2, 4, -5, 9, None), ((0, 4), 20, 4, -2, 4, 9), ((1, 2), 20, 4, -2, 4, 9), ((0, 5), 20, 2, -2, 3, 6), ((2, 1), 9, 2, -2, 3, 6), ((1, 3), 20, 2, -2, 3, 5), ((0, 6), 20, 2, -1, 3, 4), ((2, 2), 10, 1, -1, 2, 3)],
    }
# Depth of the sequences of user actions.
ACTIONS = {'quick': 3, 'thorough': 5}
# (surface, triangulations limit) for the layouts.
LAYOUTS = {'quick': [((0, 4), 40), ((1, 2), 40), ((0, 5), 60), ((2, 1), 9), ((1, 3), 40), ((0, 6), 40), ((2, 2), 20), ((3, 1), 10)], 'thorough': [((0, 4), 400), ((1, 2), 400), ((0, 5), 400), ((2, 1), 9), ((1, 3), 400), ((0, 6), 400), ((2, 2), 400), ((3, 1), 200), ((0, 8), 100), ((4, 1), 40)]}
UNIONS = [[(0, 3), (0, 3)], [(0, 3), (1, 1)], [(1, 1), (1, 1)], [(1, 1), (0, 4)], [(1, 2), (0, 3)], [(0, 3), (0, 3), (0, 3)], [(1, 1), (0, 3), (1, 1), (0, 4)]]
SIZES = [(754, 562), (354, 362), (300, 900), (1200, 300)]

ASSUMPTIONS = ['Tk itself (a recording canvas and note stand in for it)', 'the polygons may be drawn with either orientation, but all with the same one', 'edge orientation arrows may all point either way']

def bounds(tier):
    return f'all laminations with weights in a box and bounded sum {LAMS[tier]} (surface, triangulations, labellings, from, to, sum), drawn as they are, multiplied by 1000 and divided by 2; empty laminations, triangulations and mapping classes on {LAYOUTS[tier]} and unions {UNIONS}, window sizes {SIZES}; all sequences of at most {ACTIONS[tier]} user actions (zoom in, out, to drawing, moves, options)'

def flat(R): return [list(x) for x in R.triples]

def cases(tier):
    out = []
    for (g, n), count, labels, lo, hi, total in LAMS[tier]:
        parts = 1 if total is None else 2
        for t in triangulations(g, n, 40)[:count]:
            for k in range(labels):
                for part in range(parts): out.append({'kind': 'laminations', 'tri': flat(labelled(t, k)), 'lo': lo, 'hi': hi, 'total': total, 'start': part, 'stride': parts})
    for (g, n), count in LAYOUTS[tier]:
        ts = triangulations(g, n, count)[:count]
        for i in range(0, len(ts), 10): out.append({'kind': 'layouts', 'surface': [g, n], 'limit': count, 'from': i, 'to': min(i + 10, len(ts))})
    for parts in UNIONS:
        U = disjoint_union(*[triangulations(*p)[0] for p in parts])
        out.append({'kind': 'union', 'tri': flat(U)})
        out.append({'kind': 'union', 'tri': flat(labelled(U.triples, 1))})
    for g, n in [(0, 3), (1, 1), (0, 4)]: out.append({'kind': 'actions', 'tri': flat(labelled(triangulations(g, n)[0], 1)), 'depth': ACTIONS[tier] if (g, n) != (0, 4) else 2})
    out.append({'kind': 'actions', 'tri': flat(disjoint_union(triangulations(0, 3)[0], triangulations(1, 1)[0])), 'depth': 2})
    out.append({'kind': 'actions', 'tri': flat(labelled(triangulations(1, 1)[0], 2)), 'depth': 2, 'scale': 1000})
    for g, n in [(0, 3), (1, 1), (0, 4)]:
        for t in triangulations(g, n)[:1]: out.append({'kind': 'window', 'tri': flat(labelled(t, 1)), 'most': 3 if tier != 'quick' else 2, 'depth': 2 if tier == 'quick' else 3})
    return out

def show(R, T, v, ctx, size=SIZES[0], set_options=()):
    lam = T.lamination(v, promote=False) if any(isinstance(w, Fraction) for w in v) else curver.kernel.IntegralLamination(T, list(v))
    d, canvas, options = draw(lam, size)
    for name, value in set_options: getattr(options, name).set(value)
    read(R, v, d, canvas, options, ctx, f'{v} on {R.triples}', size)

LABELS = [app_options.LABEL_EDGES_NONE, app_options.LABEL_EDGES_INDEX, app_options.LABEL_EDGES_GEOMETRIC, app_options.LABEL_EDGES_GEOMETRIC_PROJ]

OPTIONS = [(('label_edges_var', l), ('show_internals_var', a), ('show_orientations_var', b), ('smooth_var', c)) for l in LABELS for a in (False, True) for b in (False, True) for c in (False, True)]

# --- The whole window ---------------------------------------------------------------------------------

def showables(R, T):
    ''' (item, weights that are shown) of all kinds of things that can be shown. '''
    zero = [0] * R.zeta
    out = [(T, zero)]
    for v in [v for v in vectors(R, -1, 2, 4) if any(v)][:3]: out.append((curver.kernel.IntegralLamination(T, list(v)), list(v)))
    identity = T.id_encoding()
    f = T.encode_flip(next(e for e in T.positive_edges if T.is_flippable(e)))
    maps = [identity, f.inverse() * f, (f.inverse() * f) * (f.inverse() * f)]  # Of lengths 1, 2 and 4.
    for h in maps: out.append((h, [-1] * R.zeta))
    for k in (1, 2, 3): out.append((curver.kernel.MappingClassGroup({'abc'[i]: identity for i in range(k)}), zero))
    return out

def contents(canvas):
    ''' What is on a canvas, whatever the order in which it was drawn. '''
    out = []
    for i in canvas.order:
        x = canvas.items[i]
        points = pairs([round(c, 3) + 0.0 for c in x['coords']])
        if x['kind'] == 'polygon': points = min(q[k:] + q[:k] for q in (points, points[::-1]) for k in range(len(points)))
        out.append((x['kind'], points, sorted(x['tags']), x.get('text', ''), x.get('state', '')))
    return sorted(out)

def open_window(items, script):
    ''' What script(root, tabs) returns when run in the main loop of the viewer showing these items. '''
    result = []
    Root.script = staticmethod(lambda root: result.append(script(root)))
    curver.show(*items)
    return result[0]

def window(case, ctx):
    R = Tri([tuple(t) for t in case['tri']])
    T = build(R)
    pool = showables(R, T)
    expected = {i: contents(draw(item)[1]) for i, (item, _) in enumerate(pool)}
    for k in range(1, case['most'] + 1):
        for chosen in itertools.product(range(len(pool)), repeat=k):
            things = [pool[i][0] for i in chosen]
            names = ['ba', 'a', 'c'][:k]
            forms = {
                'items': (things, [str(i) for i in range(k)], chosen),
                'a list': ([list(things)], [str(i) for i in range(k)], chosen),
                'a dictionary': ([dict(zip(names, things))], sorted(names), [i for _, i in sorted(zip(names, chosen))]),
                'a list of pairs': ([list(zip(names, things))], names, chosen),
                'pairs': (list(zip(names, things)), names, chosen),
                }
            for form, (items, tabs, order) in forms.items():
                text = lambda: f'showing {[str(x) for x in things]} on {R.triples} as {form}'
                got = open_window(items, lambda root: [(name, contents(canvas)) for name, canvas in root.notebook.tabs])
                ctx.equal([name for name, _ in got], tabs, lambda: f'tabs when {text()}')
                for (name, have), i in zip(got, order): ctx.check(have == expected[i], lambda: f'tab {name} when {text()} does not show the item')
                ctx.step()
            ctx.state()
    # What the keys and the menus do.
    v = max((u for u in vectors(R, -1, 2, 7)), key=lambda u: (len(set(u)), sum(map(abs, u)), u))
    things = [curver.kernel.IntegralLamination(T, list(v)), curver.kernel.IntegralLamination(T, [1002 * x for x in v])]
    keys = {'plus': lambda d: d.zoom_in(), 'equal': lambda d: d.zoom_in(), 'minus': lambda d: d.zoom_out(), 'underscore': lambda d: d.zoom_out(), '0': lambda d: d.zoom_to_drawing(),
        'Up': lambda d: d.translate(0, 5), 'Down': lambda d: d.translate(0, -5), 'Left': lambda d: d.translate(5, 0), 'Right': lambda d: d.translate(-5, 0), 'x': lambda d: None, 'F1': lambda d: None}
    entries = {
        ('Settings', 'Zoom', 'Zoom in'): lambda d: d.zoom_in(), ('Settings', 'Zoom', 'Zoom out'): lambda d: d.zoom_out(), ('Settings', 'Zoom', 'Zoom to drawing'): lambda d: d.zoom_to_drawing(),
        ('Help', 'Help'): lambda d: None, ('Help', 'About'): lambda d: None}
    settings = {
        ('Settings', 'Sizes', 'Small'): ('size_var', 0), ('Settings', 'Sizes', 'Medium'): ('size_var', 1), ('Settings', 'Sizes', 'Large'): ('size_var', 2),
        ('Settings', 'Smooth'): ('smooth_var', None), ('Settings', 'Show internal edges'): ('show_internals_var', None), ('Settings', 'Show edge orientations'): ('show_orientations_var', None),
        **{('Settings', 'Edge label', l): ('label_edges_var', l) for l in LABELS}}
    actions = [('key', k) for k in keys] + [('menu', m) for m in list(entries) + list(settings)] + [('tab', 0), ('tab', 1)]
    def script(seq):
        def run(root):
            menu = {path: (kind, kwds) for path, kind, kwds in root.menu.flat()}
            ctx.equal(sorted(menu), sorted(list(entries) + list(settings) + [('File', 'Export image...'), ('File', 'Exit')]), 'the menu')
            refs = [draw(x) for x in things]
            current = 0
            for kind, what in seq:
                if kind == 'tab':
                    current = what
                    root.notebook.select(what)
                elif kind == 'key':
                    root.bindings['<Key>'](Event(what))
                    keys[what](refs[current][0])
                elif what in entries:
                    menu[what][1]['command']()
                    entries[what](refs[current][0])
                else:
                    var, value = settings[what]
                    real = menu[what][1].get('variable', menu[what][1].get('var'))
                    new = (not real.get()) if value is None else menu[what][1].get('value', what[-1])
                    real.set(new)
                    for _, _, options in refs: getattr(options, var).set((not getattr(options, var).get()) if value is None else value)
                for i in range(2): ctx.check(contents(root.notebook.tabs[i][1]) == contents(refs[i][1]), lambda: f'tab {i} showing {things[i]} on {R.triples} after {seq}')
            return [canvas for _, canvas in root.notebook.tabs], current, menu, root
        return run
    for seq in itertools.product(actions, repeat=case['depth']):
        open_window(things, script(seq))
        ctx.trace()
    # Saving and leaving.
    for tab in (0, 1):
        for path in ('', GOOD, BAD):
            def save(root):
                root.notebook.select(tab)
                menu = {p: kwds for p, _, kwds in root.menu.flat()}
                saves.append(path)
                del dialogs[:]
                menu[('File', 'Export image...')]['command']()
                ctx.equal([c.saved for _, c in root.notebook.tabs], [[path] if i == tab and path == GOOD else [] for i in (0, 1)], f'saving tab {tab} as {path!r}')
                ctx.equal(len(dialogs), 1 if path == BAD else 0, f'warnings when saving as {path!r}')
            open_window(things, save)
    for leave in (lambda root: root.bindings['<Control-w>'](Event('w')), lambda root: root.protocols['WM_DELETE_WINDOW'](), lambda root: {p: kwds for p, _, kwds in root.menu.flat()}[('File', 'Exit')]['command']()):
        def quit(root):
            ctx.equal(root.ended, False, 'the window is open')
            leave(root)
            ctx.equal(root.ended, True, 'the window is closed')
        open_window(things, quit)
    ctx.outcome('window')

def run_case(case, ctx):
    random.seed(0)
    kind = case['kind']
    if kind == 'window': return window(case, ctx)
    if kind == 'laminations':
        R = Tri([tuple(t) for t in case['tri']])
        T = build(R)
        for k, v in enumerate(itertools.islice(vectors(R, case['lo'], case['hi'], case['total']), case['start'], None, case['stride'])):
            opts = OPTIONS[k % len(OPTIONS)]
            show(R, T, v, ctx, set_options=opts)
            if any(v): show(R, T, tuple(1002 * w for w in v), ctx, set_options=opts)
            if k % 3 == 0 and any(v): show(R, T, tuple(Fraction(w, 2) for w in v), ctx)
        ctx.outcome(f'laminations on {sorted(R.surface().values())}')
        return
    if kind == 'layouts':
        for i, t in list(enumerate(triangulations(*case['surface'], case['limit'])))[case['from']:case['to']]:
            for k in range(3):
                R = labelled(t, k)
                T = build(R)
                zero = (0,) * R.zeta
                show(R, T, zero, ctx, SIZES[(i + k) % 4], OPTIONS[(3 * i + 7 * k) % 32])
                show(R, T, (-1,) * R.zeta, ctx, SIZES[(i + k) % 4], OPTIONS[(5 * i + 7 * k) % 32])
                if k == 0:
                    d, canvas, options = draw(T)
                    read(R, zero, d, canvas, options, ctx, f'triangulation {R.triples}', SIZES[0])
                    d, canvas, options = draw(T.id_encoding())
                    read(R, (-1,) * R.zeta, d, canvas, options, ctx, f'identity of {R.triples}', SIZES[0])
                    d, canvas, options = draw(curver.kernel.MappingClassGroup({"i": T.id_encoding()}))
                    read(R, zero, d, canvas, options, ctx, f'mapping class group of {R.triples}', SIZES[0])
        ctx.outcome(f'layouts of {case["surface"]}')
        return
    if kind == 'union':
        R = Tri([tuple(t) for t in case['tri']])
        T = build(R)
        for size in SIZES:
            for opts in OPTIONS: show(R, T, (-1,) * R.zeta, ctx, size, opts)
            for k in range(3): show(R, T, tuple(2 * ((i * k) % 3) - 1 if (i * k) % 3 == 0 else 2 for i in range(R.zeta)), ctx, size, OPTIONS[k])
        ctx.outcome(f'union of {len(R.components())}')
        return
    R = Tri([tuple(t) for t in case['tri']])
    T = build(R)
    sc = case.get('scale', 1)
    v = max((u for u in vectors(R, -1, 2, 7)), key=lambda u: (len(set(u)), sum(map(abs, u)), u))
    v = tuple(w * sc * (2 if sc > 1 else 1) for w in v)
    acts = {
        'in': lambda d, o: d.zoom_in(), 'out': lambda d, o: d.zoom_out(), 'fit': lambda d, o: d.zoom_to_drawing(),
        'move': lambda d, o: d.translate(5, -3), 'internals': lambda d, o: o.show_internals_var.set(not o.show_internals_var.get()),
        'orientations': lambda d, o: o.show_orientations_var.set(not o.show_orientations_var.get()), 'smooth': lambda d, o: o.smooth_var.set(not o.smooth_var.get()),
        'label': lambda d, o: o.label_edges_var.set(LABELS[(LABELS.index(o.label_edges) + 1) % 4]), 'size': lambda d, o: o.size_var.set((o.size_var.get() + 1) % 3),
        }
    lam = curver.kernel.IntegralLamination(T, list(v))
    for seq in itertools.product(sorted(acts), repeat=case['depth']):
        d, canvas, options = draw(lam)
        for k, a in enumerate(seq):
            acts[a](d, options)
            ctx.step()
            if k == len(seq) - 1 or seq[k+1:] == (sorted(acts)[0],) * (len(seq) - k - 1):
                # Labels are only placed again by redrawing, moving takes them along.
                read(R, v, d, canvas, options, ctx, f'{v} on {R.triples} after {seq[:k+1]}', SIZES[0], fits=seq[:k+1][-1] == 'fit')
                for i in canvas.find('curve'): ctx.equal(bool(canvas.items[i].get('smooth')), bool(options.smooth), 'smoothness')
    ctx.outcome('actions')
