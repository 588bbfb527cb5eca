"""C16: rotation is relative, per page, and touches nothing else."""
import itertools
import pdfsyntax as pdf
from mc.engine import Harness, Prune
from mc import graph as G, trees as T, refpdf as R, model as M, scale as S
from mc.common import expect, norm, write

ROT = ['-', 0, 90, 180, 270, -90, 450, -450, 'null', 'ref', 'ref null', 'shared ref', 45]
ANGLES = [90, -90, 180, 270, 360, 450, -180, 0, 45, -450]


def build(ch, maxnodes):
    t = T.Tree(ch.pick(T.shapes(maxnodes)))
    t.objs[t.root].update({'/MediaBox': [0, 0, 100, 200], '/Resources': {'/Font': {}}})
    shared = t.new(180)
    for k, n in enumerate(t.nodes):
        r = ch.dev(ROT, f'/Rotate of object {n}')
        if r == 'null':
            r = None
        elif r == 'ref':
            r = t.new(270)
        elif r == 'ref null':
            r = t.new(None)
        elif r == 'shared ref':
            r = shared
        if r != '-':
            t.objs[n]['/Rotate'] = r
        if n in t.leaf:
            t.objs[n]['/K'] = [k, {'/X': b'(s)'}]
    return t


def angle(view, eff):
    return view.res(eff.get('/Rotate')) or 0


def strip(c):
    """Content without the /Rotate of the given pages."""
    return {n: R.canon(norm(v)) for n, v in c.items()}


def check(doc, want, base, leafs, view_of):
    """want: angle of each page; base: {num: value} before."""
    view = view_of(doc)
    w = G.walk(view)
    got = [angle(view, e) for r, e in w]
    for g in got:
        expect(isinstance(g, int), f'orientation {g!r}')
    expect([g % 360 for g in got] == [x % 360 for x in want], lambda: f'orientations {got}, expected {want}')
    return got


def selections(n):
    out = [()]
    for k in range(1, n + 1):
        out += itertools.combinations(range(n), k)
    return out


def h(maxnodes, depth, angles, reverse_sel=False):
    def run(ch):
        t = build(ch, maxnodes)
        form = ch.dev(['table', 'packed', 'stream'], 'form')
        data = t.data(form)
        doc = pdf.loads(data)
        view = G.of_doc(doc)
        leafs = [int(r.imag) for r, e in G.walk(view)]
        want = [angle(view, e) for r, e in G.walk(view)]
        n = len(want)
        touched = set()
        base = {k: v[1] for k, v in M.content(doc).items()}
        ch.note({k: v for k, v in t.objs.items()})
        for k in range(depth):
            a = ch.pick(angles)
            sel = ch.pick(selections(n)[: (1 << n)])
            ch.note(f'rotate by {a} pages {list(sel)}')
            args = list(sel)
            if ch.dev((False, True), 'selection listed backwards'):
                args.reverse()
            doc = pdf.rotate(doc, a, args) if sel else pdf.rotate(doc, a)
            for i in (sel or range(n)):
                want[i] += a
                touched.add(i)
            got = check(doc, want, base, leafs, G.of_doc)
            expect(all(0 <= got[i] < 360 for i in touched), lambda: f'orientations {got} out of range')
            now = {x: v[1] for x, v in M.content(doc).items()}
            expect(set(now) == set(base), lambda: f'objects in use {sorted(now)} instead of {sorted(base)}')
            for x in base:
                b, c = base[x], now[x]
                if x in leafs and leafs.index(x) in touched:
                    b, c = [{q: z for q, z in y.items() if q != '/Rotate'} for y in (b, c)]
                expect(R.canon(norm(b)) == R.canon(norm(c)), lambda: f'object {x} was {base[x]!r} and became {now[x]!r}')
            ch.step()
            act = ch.dev(['-', 'commit', 'reload', 'read'], 'then')
            if act == 'commit':
                doc = pdf.commit(doc)
            elif act == 'reload':
                doc = pdf.loads(write(doc)[0])
                base = {n_: v[1] for n_, v in M.content(doc).items()}
            elif act == 'read':
                pdf.pages(doc), pdf.page_layouts(doc)
            ch.state((repr(t.objs), tuple(want)))
        data, _ = write(doc)
        v = G.of_file(data)
        got = [angle(v, e) for r, e in G.walk(v)]
        expect([g % 360 for g in got] == [x % 360 for x in want], lambda: f'orientations in the written file {got}, expected {want}')
        layouts = [x[1] or 0 for x in pdf.page_layouts(pdf.loads(data))]
        expect(layouts == got, lambda: f'page_layouts reports {layouts}, expected {got}')
        ch.outcome(tuple(got))
    return run

def h_sizes(ch):
    """Many pages, many rotations, large angles."""
    kind = ch.pick(['pages', 'groups', 'chain'])
    n = ch.pick([3, 9, 10, 11, 16, 17, 33, 65] if kind != 'chain' else [9, 10, 11, 33])
    sel = ch.pick(['all', 'named', 'first', 'last', 'middle', 'evens', 'but last', 'tenth', 'one by one'])
    if sel == 'one by one' and n > 40:
        raise Prune()
    t = S.tree(kind, n)
    ch.note(f'{n} pages, {kind}, {sel}')
    doc = pdf.loads(t.data(ch.pick(['table', 'packed'])))
    view = G.of_doc(doc)
    leafs = [int(r.imag) for r, e in G.walk(view)]
    want = [angle(view, e) for r, e in G.walk(view)]
    base = {k: R.canon(norm(v[1])) for k, v in M.content(doc).items()}
    pick = {'all': [], 'named': list(range(n)), 'first': [0], 'last': [n - 1], 'middle': [n // 2], 'evens': list(range(0, n, 2)), 'but last': list(range(n - 1)), 'tenth': [9 % n], 'one by one': None}[sel]
    touched = set()
    for a in ([90, 720270] if pick is not None else [90]):
        for p in ([pick] if pick is not None else [[i] for i in range(n)]):
            doc = pdf.rotate(doc, a, p) if p else pdf.rotate(doc, a)
            for i in (p or range(n)):
                want[i] += a
                touched.add(i)
        check(doc, want, base, leafs, G.of_doc)
        turned = {leafs[i] for i in touched}
        now = {k: v[1] for k, v in M.content(doc).items()}
        expect(set(now) == set(base), lambda: f'objects in use {sorted(now)} instead of {sorted(base)}')
        for x in base:
            if x not in turned:
                expect(R.canon(norm(now[x])) == base[x], lambda: f'object {x} became {now[x]!r}')
            else:
                b, c = [{q: z for q, z in y.items() if q != '/Rotate'} for y in (t.objs[x], now[x])]
                expect(R.canon(norm(b)) == R.canon(norm(c)), lambda: f'object {x} was {b!r} and became {c!r}')
        ch.step()
    v = G.of_file(write(doc)[0])
    got = [angle(v, e) for r, e in G.walk(v)]
    expect([g % 360 for g in got] == [x % 360 for x in want], lambda: f'orientations in the written file {got}, expected {want}')
    ch.state((kind, n, sel))
    ch.outcome((kind, n))


def h_repeat(ch):
    """One page turned many times, with and without commits."""
    n = ch.pick([3, 5, 9, 10, 11, 16, 17, 33, 40])
    a = ch.pick([90, 270, -90, 450])
    every = ch.pick([0, 1, 4])
    t = T.Tree(((), (), ((),)))
    t.objs[t.root].update({'/MediaBox': [0, 0, 100, 200], '/Resources': {}, '/Rotate': 90})
    doc = pdf.loads(t.data('table'))
    for k in range(n):
        doc = pdf.rotate(doc, a, [1])
        if every and k % every == 0:
            doc = pdf.commit(doc)
        v = G.of_doc(doc)
        got = [angle(v, e) % 360 for r, e in G.walk(v)]
        expect(got == [90, (90 + a * (k + 1)) % 360, 90], lambda: f'orientations {got} after {k + 1} rotations by {a}')
        ch.step()
    v = G.of_file(write(doc)[0])
    got = [angle(v, e) % 360 for r, e in G.walk(v)]
    expect(got == [90, (90 + a * n) % 360, 90], lambda: f'orientations in the file {got} after {n} rotations by {a}')
    ch.state((n, a, every))
    ch.outcome((n, every))


def harnesses(tier):
    t = tier == 'thorough'
    return [Harness('trees', h(4 if t else 3, 1, ANGLES), 2 if t else 1, 'every tree, every selection of pages, every angle'),
            Harness('sequences', h(3 if t else 2, 3 if t else 2, ANGLES if t else [90, -180, 450]), 1, 'sequences of rotations'),
            Harness('attributes', h(2, 2 if t else 1, [90, 270]), 2, 'combinations of own and inherited orientations'),
            Harness('sizes', h_sizes, note='3 to 65 pages, nine kinds of selections, large angles'),
            Harness('repeated', h_repeat, note='one page turned up to 40 times in a row')]
