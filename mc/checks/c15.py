"""C15: page listing gives document order and correct inherited attributes."""
import pdfsyntax as pdf
from mc.engine import Harness, Prune
from mc import graph as G, trees as T, refpdf as R, scale as S
from mc.common import expect, norm

VALUES = {'/MediaBox': [0, 0, 100], '/CropBox': [0, 0, 50], '/Rotate': 90, '/Resources': {'/Font': {}}}
ATTRS = ['-', '/MediaBox', '/CropBox', '/Rotate', '/Resources', 'all', 'null', 'null ref', 'ref', 'other', 'dangling']


def attributes(t, kind, n, k):
    """Attributes of node n (k distinguishes the values of the nodes)."""
    def val(a):
        if a == '/Rotate':
            return 90 * (k % 4)
        if a == '/Resources':
            return {'/Font': {'/F%d' % k: {'/Type': '/Font'}}}
        return VALUES[a] + [100 + k]
    if kind in VALUES:
        return {kind: val(kind)}
    if kind == 'all':
        return {a: val(a) for a in VALUES}
    if kind == 'null':
        return {'/MediaBox': None, '/Rotate': None}
    if kind == 'null ref':
        return {'/Rotate': t.new(None)}
    if kind == 'dangling':
        return {'/MediaBox': complex(0, 90), '/Resources': complex(0, 90)}
    if kind == 'ref':
        return {'/MediaBox': t.new(val('/MediaBox')), '/Resources': t.new(val('/Resources')), '/Rotate': t.new(val('/Rotate'))}
    if kind == 'other':
        return {'/Foo': k, '/UserUnit': 2, '/Annots': [], '/Contents': [], '/Group': {'/S': '/X'}}
    return {}


def seen(view):
    return [norm({k: v for k, v in eff.items() if k != '/Parent'}) for ref, eff in G.walk(view)]


def check(doc, view, ch, other=None):
    want = [(r, norm(e)) for r, e in G.walk(view)]
    for again in range(2):
        got = pdf.pages(doc)
        expect(R.canon(norm(got)) == R.canon([e for r, e in want]), lambda: f'pages {got!r}, expected {[e for r, e in want]!r}')
        fpt = pdf.flat_page_tree(doc)
        expect([r for r, i in fpt] == [r for r, e in want], lambda: f'page references {fpt!r}, expected {[r for r, e in want]!r}')
        expect(pdf.number_pages(doc) == len(want) and len(doc) == len(want), lambda: f'{pdf.number_pages(doc)} pages, length {len(doc)}, expected {len(want)}')
        for k in range(len(want) + 2):
            part = pdf.pages(doc, k)
            expect(R.canon(norm(part)) == R.canon([e for r, e in want[:k]]), lambda: f'the first {k} pages are {part!r}')
            refs = [r for r, i in pdf.flat_page_tree(doc, max_nb=k)]
            expect(refs == [r for r, e in want[:k]], lambda: f'the first {k} page references are {refs!r}')
        if all(view.res(e.get('/MediaBox')) is not None for r, e in want):
            pl = pdf.page_layouts(doc)
            exp = [(view.res(e['/MediaBox']), view.res(e.get('/Rotate'))) for r, e in want]
            expect(R.canon(norm([list(x) for x in pl])) == R.canon(norm([list(x) for x in exp])), lambda: f'layouts {pl!r}, expected {exp!r}')
        if other is not None:
            pdf.pages(other)
            pdf.flat_page_tree(other)
        ch.step()
    return want


def build(ch, maxnodes, kinds):
    forest = ch.pick(T.shapes(maxnodes))
    total = T.Tree.size(forest)
    leafs = []
    idx = [0]

    def rec(f):
        for t in f:
            idx[0] += 1
            if not t:
                leafs.append(idx[0])
            rec(t)
    rec(forest)
    empty = [i for i in leafs if ch.dev((False, True), f'empty node {i}')]
    t = T.Tree(forest, reverse=ch.dev((False, True), 'reverse numbering'), empty=empty)
    for k, n in enumerate(list(t.nodes)):
        kind = ch.dev(kinds, f'attributes of object {n}')
        t.objs[n].update(attributes(t, kind, n, k))
    for n in list(t.nodes):
        if t.objs[n]['/Type'] == '/Pages':
            v = ch.dev(['-', 'kids', 'count', 'both', 'type'], f'indirect entries of object {n}')
            if v in ('kids', 'both'):
                t.objs[n]['/Kids'] = t.new(t.objs[n]['/Kids'])
            if v in ('count', 'both'):
                t.objs[n]['/Count'] = t.new(t.objs[n]['/Count'])
            if v == 'type':
                t.objs[n]['/Type'] = t.new('/Pages')
    return t


def h(maxnodes, kinds=ATTRS):
    def run(ch):
        t = build(ch, maxnodes, kinds)
        form = ch.dev(['table', 'packed', 'stream', 'memory', 'edited', 'committed'], 'form')
        ch.note({n: v for n, v in t.objs.items()})
        doc, view = make(t, form)
        other = pdf.blank()
        want = check(doc, view, ch, other)
        ch.state(repr(want))
        ch.outcome((len(want), repr([sorted(e) for r, e in want])))
    return run


def make(t, form):
    view = G.of_objs(t.objs, {'/Root': 1j})
    if form in ('table', 'packed', 'stream'):
        return pdf.loads(t.data(form)), view
    # the tree enters the document by edits
    bare = {n: v for n, v in t.objs.items()}
    top = max(bare)
    first = {n: ({'/Type': '/Catalog', '/Pages': 2j} if n == 1 else {'/Type': '/Pages', '/Kids': [3j], '/Count': 1} if n == 2 else
                 {'/Type': '/Page', '/Parent': 2j, '/MediaBox': [0, 0, 1, 1]} if n == 3 else [n]) for n in range(1, max(top, 3) + 1)}
    doc = pdf.loads(R.build([R.Rev(first)])[0])
    pdf.pages(doc)
    for n in range(1, top + 1):
        if n in bare:
            doc = pdf.update_object(doc, n, bare[n])
    if form == 'committed':
        doc = pdf.commit(doc)
    return doc, view


def h_depth(depth, kinds):
    """One long branch with a page at every level."""
    def run(ch):
        f = ()
        for k in range(ch.pick(range(1, depth + 1))):
            f = ((), f) if ch.pick((0, 1)) and f else ((f) if f else (), ())
        t = T.Tree(f)
        for k, n in enumerate(list(t.nodes)):
            t.objs[n].update(attributes(t, ch.dev(kinds), n, k))
        doc, view = make(t, 'table')
        want = check(doc, view, ch)
        ch.state(repr(want))
        ch.outcome(len(want))
    return run

def h_sizes(ch):
    """Many pages: flat, in groups, in a chain; complete listings and listings of the first k pages."""
    kind = ch.pick(['pages', 'groups', 'chain'])
    n = ch.pick(S.COARSE if kind != 'chain' else [9, 10, 11, 17, 33, 65, 100])
    t = S.tree(kind, n)
    form = ch.pick(['table', 'packed', 'edited'])
    if form == 'edited' and n > 130:
        raise Prune()
    ch.note(f'{n} pages, {kind}, {form}')
    doc, view = make(t, form)
    want = [(r, R.canon(norm(e))) for r, e in G.walk(view)]
    expect(len(want) == n, lambda: f'{len(want)} pages built')
    ks = sorted({0, 1, 2, 9, 10, 11, n // 2, n - 1, n, n + 1})
    for again in range(2):
        got = pdf.pages(doc)
        expect([R.canon(norm(x)) for x in got] == [e for r, e in want], lambda: f'{len(got)} pages, or others, instead of the {n} of the document')
        fpt = [r for r, i in pdf.flat_page_tree(doc)]
        expect(fpt == [r for r, e in want], lambda: f'page references {fpt!r}')
        expect(pdf.number_pages(doc) == n and len(doc) == n, lambda: f'{pdf.number_pages(doc)} pages, length {len(doc)}, expected {n}')
        for k in ks:
            part = pdf.pages(doc, k)
            expect([R.canon(norm(x)) for x in part] == [e for r, e in want[:k]], lambda: f'first {k} of {n} pages: {len(part)} listed, or others')
            refs = [r for r, i in pdf.flat_page_tree(doc, max_nb=k)]
            expect(refs == [r for r, e in want[:k]], lambda: f'the first {k} page references are {refs!r}')
        pl = pdf.page_layouts(doc)
        exp = [(view.res(e['/MediaBox']), view.res(e.get('/Rotate'))) for r, e in G.walk(view)]
        expect(R.canon(norm([list(x) for x in pl])) == R.canon(norm([list(x) for x in exp])), lambda: f'layouts {pl!r}, expected {exp!r}')
        ch.step()
    ch.state((kind, n, form))
    ch.outcome((kind, n))


def harnesses(tier):
    t = tier == 'thorough'
    return [Harness('trees', h(6 if t else 5), 2 if t else 1, 'every page tree of at most N nodes under the root, with deviations (attributes, indirect entries, empty nodes, numbering, file form)'),
            Harness('middle trees', h(4 if t else 3), 3 if t else 2, 'smaller trees, more deviations'),
            Harness('small trees', h(3 if t else 2), 4 if t else 3, 'smallest trees, most deviations'),
            Harness('deep trees', h_depth(7 if t else 4, ['-', '/MediaBox', '/Rotate', 'all', 'null']), 2, 'chains of nodes'),
            Harness('sizes', h_sizes, note='3 to 257 pages in three shapes of tree; complete and partial listings')]
