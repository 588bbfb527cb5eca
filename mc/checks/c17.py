"""C17: removing, keeping and slicing pages selects exactly those pages, intact."""
import itertools
import pdfsyntax as pdf
from mc.engine import Harness, Prune
from mc import graph as G, trees as T, refpdf as R, files as F, scale as S
from mc.common import expect, write


def world(ch, forest, form='table', links=True):
    """A page tree with shared and private objects, and extra references between them."""
    t = T.Tree(forest, reverse=ch.dev((False, True), 'reverse numbering'))
    o = t.objs
    font = t.new({'/Type': '/Font', '/Subtype': '/Type1', '/BaseFont': '/Helvetica'})
    o[t.root].update({'/MediaBox': [0, 0, 612, 792], '/Resources': {'/Font': {'/F1': font}}})
    shared = t.new({'/Kind': '/Shared', '/V': [1, 2]})
    sstream = t.new(R.S({'/Kind': '/SharedStream'}, b'q Q'))
    names = {'font': font, 'shared': shared, 'stream': sstream, 'catalog': 1j, 'root': complex(0, t.root)}
    for i, n in enumerate(t.leaf):
        own = t.new({'/Own': i})
        names[f'own{i}'] = own
        names[f'page{i}'] = complex(0, n)
        o[n]['/Contents'] = t.new(R.S({}, b'BT /F1 12 Tf (page %d) Tj ET' % i))
        o[n]['/K'] = [own]
    outline = t.new({'/Type': '/Outlines'})
    names['outline'] = outline
    o[1]['/Outlines'] = outline
    info = t.new({'/Title': b'(T)'})
    names['info'] = info
    if links:
        # extra references: (from, to, key)
        npg = len(t.leaf)
        targets = ['shared', 'stream', 'font'] + [x for i in range(npg) for x in (f'own{i}', f'page{i}')]
        sources = ['shared', 'stream', 'font', 'outline', 'catalog', 'root', 'info'] + [x for i in range(npg) for x in (f'own{i}', f'page{i}')]
        for s in sources:
            # keys that usually lead back to the container, used by a kept object to refer to something else
            back = [x + k for x in targets if x in ('shared', 'font') or x.startswith('own') for k in (' /Parent', ' /P')] if s in ('outline', 'catalog') or s.startswith('own') else []
            to = ch.dev(['-'] + targets + back, f'extra reference from {s} to')
            if to == '-':
                continue
            to, _, key = to.partition(' ')
            v = o[int(names[s].imag)]
            e = v.entries if isinstance(v, R.S) else v
            if key:
                e[key] = names[to]
            elif s == 'root':
                e['/Resources'] = {'/Font': {'/F1': font}, '/XObject': {'/X0': names[to]}}
            elif s.startswith('page'):
                e['/Annots'] = [{'/Type': '/Annot', '/Subtype': '/Link', '/P': names[s], '/Dest': [names[to], '/Fit']}]
            else:
                e['/Link'] = [names[to], {'/D': names[to]}]
    v = ch.dev(['-', 'kids', 'count', 'both'], 'indirect entries of the root')
    if v in ('kids', 'both'):
        o[t.root]['/Kids'] = t.new(o[t.root]['/Kids'])
    if v in ('count', 'both'):
        o[t.root]['/Count'] = t.new(o[t.root]['/Count'])
    data = t.data(ch.dev(['table', 'packed', 'stream'], 'form') if form is None else form, trailer={'/Info': info})
    return t, data


def choices(n):
    """Every way to name a proper non-empty selection of the pages: (how, argument, pages kept)."""
    out = []
    for k in range(1, n + 1):
        for keep in itertools.combinations(range(n), k):
            if k < n:
                out.append(('remove', frozenset(range(n)) - frozenset(keep), keep))
            out.append(('keep', frozenset(keep), keep))
    for i in range(n):
        out.append(('index', i, (i,)))
        out.append(('index', i - n, (i,)))
        out.append(('iterate', i, (i,)))
        out.append(('keep1', i, (i,)))
        if n > 1:
            out.append(('remove1', i, tuple(x for x in range(n) if x != i)))
    ends = [None] + list(range(-n, n + 1))
    done = set()
    for a in ends:
        for b in ends:
            for st in (None, 2, -1):
                sel = tuple(sorted(range(n)[slice(a, b, st)]))
                if sel and (sel, st) not in done:
                    done.add((sel, st))
                    out.append(('slice', (a, b, st), sel))
    return out


def select(doc, how, arg):
    if how == 'remove':
        return pdf.remove_pages(doc, set(arg))
    if how == 'keep':
        return pdf.keep_pages(doc, set(arg))
    if how == 'remove1':
        return pdf.remove_pages(doc, arg)
    if how == 'keep1':
        return pdf.keep_pages(doc, arg)
    if how == 'index':
        return doc[arg]
    if how == 'iterate':
        ds = list(doc)
        expect(len(ds) == pdf.number_pages(doc), f'iteration gives {len(ds)} documents')
        return ds[arg]
    return doc[slice(*arg)]


def check(doc, want, catalog, what):
    for view in (G.of_doc(doc), G.of_file(write(doc)[0])):
        G.compare({'pages': want, 'catalog and information': catalog}, G.everything(view), what)
    expect(pdf.number_pages(doc) == len(want) == len(doc) == len(pdf.pages(doc)), lambda: f'{pdf.number_pages(doc)} pages counted, {len(pdf.pages(doc))} listed, expected {len(want)}')


def h(maxnodes, depth, hows=None, links=True, minnodes=1):
    def run(ch):
        forest = ch.pick([f for f in T.shapes(maxnodes, minnodes)])
        t, data = world(ch, forest, None, links)
        ch.note(t.objs)
        doc = pdf.loads(data)
        before = G.everything(G.of_file(data))
        want, cat = before['pages'], before['catalog and information']
        for k in range(depth):
            opts = [c for c in choices(len(want)) if hows is None or c[0] in hows]
            if k:
                opts = [('stop', None, None)] + [c for c in opts if len(c[2]) < len(want)]
            how, arg, sel = ch.pick(opts)
            if how == 'stop':
                break
            ch.note((how, arg, sel))
            doc = select(doc, how, arg)
            want = [want[i] for i in sel]
            check(doc, want, cat, f'after {how} {arg}')
            ch.step()
            ch.state((repr(t.objs), repr(want)))
        ch.outcome((len(want), hash(repr(want))))
    return run

def h_sizes(ch):
    """Many pages; positions around the ends, steps, ranges; then a second selection."""
    kind = ch.pick(['pages', 'groups', 'chain'])
    n = ch.pick([9, 10, 11, 12, 16, 17, 33, 65, 101, 129, 257] if kind != 'chain' else [9, 10, 11, 33])
    t = S.tree(kind, n)
    form = ch.pick(['table', 'packed']) if n < 20 else 'table'
    data = t.data(form)
    before = G.everything(G.of_file(data))
    want, cat = before['pages'], before['catalog and information']
    opts = []
    for i in (0, 1, 9, 10, n // 2, n - 2, n - 1):
        if i < n:
            opts += [('remove1', i, [x for x in range(n) if x != i]), ('keep1', i, [i]), ('index', i, [i]), ('index', i - n, [i])]
    for s in ((None, None, 2), (1, None, 2), (None, None, -1), (None, 10, None), (10 - n, None, None), (1, -1, None), (-1, 0, -3), (0, n + 5, None), (8, 11, None), (n - 3, None, None), (None, None, 10)):
        opts.append(('slice', s, sorted(range(n)[slice(*s)])))
    opts += [('remove', set(range(0, n, 2)), list(range(1, n, 2))), ('keep', set(range(0, n, 2)), list(range(0, n, 2))), ('remove', set(range(1, n)), [0]), ('remove', set(range(n - 1)), [n - 1]),
             ('keep', set(range(n)), list(range(n))), ('remove', set(range(8, 11)) & set(range(n)), [x for x in range(n) if x not in (8, 9, 10)])]
    how, arg, sel = ch.pick([o for o in opts if o[2]])
    ch.note((kind, n, form, how, arg))
    doc = select(pdf.loads(data), how, arg)
    want = [want[i] for i in sel]
    check(doc, want, cat, f'{kind} {n}: after {how} {arg}')
    ch.step()
    if n < 40 and len(want) > 2:
        then = ch.pick(['remove1', 'keep1', 'slice'])
        m = len(want)
        arg, sel = {'remove1': (m - 2, [x for x in range(m) if x != m - 2]), 'keep1': (m - 1, [m - 1]), 'slice': ((1, None, 2), list(range(1, m, 2)))}[then]
        doc = select(doc, then, arg)
        want = [want[i] for i in sel]
        check(doc, want, cat, f'{kind} {n}: after {how}, then {then} {arg}')
        ch.step()
    ch.state((kind, n, how, repr(arg)))
    ch.outcome((kind, n, len(want)))


def h_down(ch):
    """Pages removed one at a time down to the last; iteration over many pages."""
    kind = ch.pick(['pages', 'groups', 'chain'])
    n = ch.pick([5, 10, 11, 17, 33])
    where = ch.pick(['first', 'last', 'middle', 'iterate'])
    mode = ch.pick(['-', 'commit', 'reload']) if where != 'iterate' else '-'
    t = S.tree(kind, n)
    doc = pdf.loads(t.data('table'))
    e = G.everything(G.of_doc(doc))
    want, cat = list(e['pages']), e['catalog and information']
    if where == 'iterate':
        ds = list(doc)
        expect(len(ds) == n, lambda: f'iteration over {n} pages gives {len(ds)} documents')
        for i, d in enumerate(ds):
            check(d, [want[i]], cat, f'{kind} {n}: document {i} of the iteration')
        ch.step(n)
    while len(want) > 1 and where != 'iterate':
        i = {'first': 0, 'last': len(want) - 1, 'middle': len(want) // 2}[where]
        doc = pdf.remove_pages(doc, i)
        del want[i]
        if mode == 'commit':
            doc = pdf.commit(doc)
        elif mode == 'reload':
            doc = pdf.loads(write(doc)[0])
        if len(want) % 5 == 1 or len(want) < 4:
            check(doc, want, cat, f'{kind} {n}: {len(want)} pages left')
        ch.step()
    ch.state((kind, n, where, mode))
    ch.outcome((kind, n, where))


def harnesses(tier):
    t = tier == 'thorough'
    return [Harness('selections', h(4 if t else 3, 1, links=False), 1, 'every way to select pages in every tree'),
            Harness('references', h(4 if t else 3, 1, ('remove', 'keep1')), 2 if t else 1, 'extra references between pages, shared objects, catalog and tree'),
            Harness('two references', h(3 if t else 2, 1, ('remove',), minnodes=2), 3 if t else 2, 'pairs of extra references'),
            Harness('sequences', h(4 if t else 4, 3, ('remove1', 'keep'), links=t, minnodes=3), 1 if t else 0, 'several selections in a row'),
            Harness('sizes', h_sizes, note='9 to 257 pages in three shapes of tree, about 45 selections each, then a second one'),
            Harness('one by one', h_down, note='up to 33 pages removed one at a time, or iterated over')]
