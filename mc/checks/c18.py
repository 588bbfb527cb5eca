"""C18: concatenation appends the other document's pages unchanged."""
import pdfsyntax as pdf
from mc.engine import Harness, Prune
from mc import graph as G, trees as T, refpdf as R, files as F, model as M, scale as S
from mc.checks.c17 import select
from mc.common import expect, write

ROOT_ATTRS = ['-', '/MediaBox', '/Rotate', '/Resources', '/CropBox', 'all']


def attrs(t, kind, k):
    a = {'/MediaBox': [0, 0, 100 + k, 200], '/Rotate': 90 * (k % 4), '/Resources': {'/Font': {'/F%d' % k: {'/Type': '/Font', '/K': k}}}, '/CropBox': [0, 0, 50 + k, 60]}
    if kind == 'all':
        return {**a, '/Resources': t.new(a['/Resources'])}
    return {kind: a[kind]} if kind in a else {}


def one(ch, side, maxnodes, k, minnodes=1):
    """One of the two documents: (bytes, readable description)."""
    t = T.Tree(ch.pick(T.shapes(maxnodes, minnodes)), reverse=ch.dev((False, True), f'{side}: reverse numbering'))
    o = t.objs
    shared = t.new({'/Side': '/' + side, '/S': t.new(R.S({}, b'% ' + side.encode()))})
    o[t.root].update(attrs(t, ch.dev(ROOT_ATTRS, f'{side}: attributes of the root'), 10 * k))
    for i, n in enumerate(t.nodes):
        if n == t.root:
            continue
        o[n].update(attrs(t, ch.dev(['-', 'all', '/Rotate'], f'{side}: attributes of object {n}'), 10 * k + i))
        if n in t.leaf:
            o[n]['/Contents'] = [t.new(R.S({}, b'(%s %d) Tj' % (side.encode(), i)))]
            o[n]['/Sh'] = shared
    extra = ch.dev(['-', 'link', 'cycle', 'dangling', 'catalog', 'null kid'], f'{side}: extra')
    if extra == 'link':
        o[t.leaf[0]]['/Annots'] = [{'/Dest': [complex(0, t.leaf[-1]), '/Fit'], '/P': complex(0, t.leaf[0])}]
    elif extra == 'cycle':
        a = t.new({})
        o[int(a.imag)]['/Self'] = [a, t.new({'/Up': a})]
        o[t.leaf[0]]['/Cyc'] = a
    elif extra == 'dangling':
        o[t.leaf[-1]]['/Dang'] = [complex(0, 77), {'/X': complex(0, 500)}]
    elif extra == 'catalog':
        o[1]['/Outlines'] = t.new({'/First': complex(0, t.leaf[0]), '/C': 1j})
    form = ch.dev(['table', 'packed', 'stream', 'indirect'], f'{side}: form')
    if form == 'indirect':
        o[t.root]['/Kids'] = t.new(o[t.root]['/Kids'])
        o[t.root]['/Count'] = t.new(o[t.root]['/Count'])
    info = t.new({'/Title': b'(%s)' % side.encode()})
    d = t.data('table' if form == 'indirect' else form, trailer={'/Info': info})
    return d, o


def history(ch, doc, side, k):
    """The document may come with pending or committed changes, deletions and gaps."""
    how = ch.dev(['-', 'pending', 'committed', 'deleted', 'rotated', 'removed'], f'{side}: history')
    if how == 'pending':
        doc, r = pdf.add_object(doc, {'/Added': k})
    elif how == 'committed':
        doc, r = pdf.add_object(doc, {'/Added': k})
        doc = pdf.commit(doc)
    elif how == 'deleted':
        doc, r = pdf.add_object(doc, {'/Gone': k})
        doc, r2 = pdf.add_object(doc, {'/Added': k})
        doc = pdf.commit(doc)
        doc = pdf.update_object(doc, int(r.imag), None)
    elif how == 'rotated':
        doc = pdf.rotate(doc, 90, [0])
    elif how == 'removed':
        if pdf.number_pages(doc) < 2:
            raise Prune()
        doc = pdf.remove_pages(doc, 0)
    return doc


def verify(doc, want, rest, what):
    for view in (G.of_doc(doc), G.of_file(write(doc)[0])):
        got = G.everything(view)
        G.compare({'pages': want}, got, what)
        if rest is not None:
            G.compare({'catalog and information': rest}, got, what)
    n = len(want)
    expect(pdf.number_pages(doc) == n == len(doc) == len(pdf.pages(doc)), lambda: f'{what}: {pdf.number_pages(doc)} pages counted, {len(pdf.pages(doc))} listed, expected {n}')


def rotated(doc, i):
    """Everything in the document once page i is turned by 90."""
    view = G.of_doc(doc)
    ref, eff = G.walk(view)[i]
    turned = {**view.get(int(ref.imag)), '/Rotate': ((view.res(eff.get('/Rotate')) or 0) + 90) % 360}
    return G.everything(G.View(lambda n: turned if n == int(ref.imag) else view.get(n), view.trailer, view.gens))


def follow(ch, doc, want, rest, op, extra):
    """One more operation; (document, pages expected, rest expected)."""
    n = len(want)
    if op == 'remove':
        if n < 2:
            raise Prune()
        i = ch.pick(range(n))
        return pdf.remove_pages(doc, i), want[:i] + want[i + 1:], rest
    if op == 'keep':
        i = ch.pick(range(n))
        return pdf.keep_pages(doc, {i}), [want[i]], rest
    if op == 'rotate':
        i = ch.pick(range(n))
        e = rotated(doc, i)
        return pdf.rotate(doc, 90, [i]), e['pages'], e['catalog and information']
    if op == 'again':
        d, pages, rest2 = extra
        left = ch.pick((True, False))
        if ch.pick((True, False)):
            return pdf.concat(doc, d, left), want + pages, rest if left else rest2
        return pdf.concat(d, doc, left), pages + want, rest2 if left else rest
    if op == 'self':
        return doc + doc, want + want, rest
    if op == 'squash':
        return pdf.squash(doc), want, rest
    if op == 'reload':
        return pdf.loads(write(doc)[0]), want, rest
    if op == 'commit':
        return pdf.commit(doc), want, rest
    if op == 'annot':
        if n < 1:
            raise Prune()
        d = pdf.add_text_annotation(doc, n - 1, 'x', [0, 0, 1, 1])
        e = G.everything(G.of_doc(d))
        return d, e['pages'], e['catalog and information']
    if op == 'rewind':
        raise Prune()
    raise Prune()


def h(maxnodes, depth, ops, targets=(True, False), hist=False, minnodes=1):
    def run(ch):
        ld, lo = one(ch, 'left', maxnodes, 1, minnodes)
        rd, ro = one(ch, 'right', maxnodes, 2, minnodes)
        ch.note(f'left: {lo}')
        ch.note(f'right: {ro}')
        left, right = pdf.loads(ld), pdf.loads(rd)
        if hist:
            left, right = history(ch, left, 'left', 1), history(ch, right, 'right', 2)
        el, er = G.everything(G.of_doc(left)), G.everything(G.of_doc(right))
        target = ch.pick(targets)
        ch.note(f'target_left={target}')
        doc = pdf.concat(left, right, target)
        want = el['pages'] + er['pages']
        rest = (el if target else er)['catalog and information']
        verify(doc, want, rest, 'after concatenation')
        for k in range(depth):
            op = ch.pick((['stop'] if k else []) + ops)
            if op == 'stop':
                break
            doc, want, rest = follow(ch, doc, want, rest, op, (right, er['pages'], er['catalog and information']))
            ch.note(op)
            verify(doc, want, rest, f'after {op}')
            ch.step()
        ch.state((repr(lo), repr(ro), target, repr(want)))
        ch.outcome((len(want), target))
    return run


def h_plus(names):
    """Documents of every organisation, concatenated with the operator."""
    def run(ch):
        a, b = ch.pick(names), ch.pick(names)
        ch.note((a, b))
        left, right = M.start(a)[0], M.start(b)[0]
        el, er = G.everything(G.of_doc(left)), G.everything(G.of_doc(right))
        target = ch.pick((True, False))
        doc = left + right if target else pdf.concat(left, right, target_left=False)
        want, rest = el['pages'] + er['pages'], (el if target else er)['catalog and information']
        verify(doc, want, rest, 'after concatenation')
        doc2, want2, rest2 = follow(ch, doc, want, rest, ch.pick(['self', 'squash', 'reload']), None)
        verify(doc2, want2, rest2, 'after one more operation')
        ch.step()
        ch.state((a, b, target))
        ch.outcome(len(want2))
    return run

def h_sizes(ch):
    """Documents of many pages or objects, and many documents one after the other."""
    what = ch.pick(['pages', 'objects', 'numbers', 'many', 'doubling'])
    if what == 'pages':
        kind = ch.pick(['pages', 'groups', 'chain'])
        big = [1, 9, 10, 11, 33, 65] if kind == 'pages' else [9, 11, 33]
        n, m = ch.pick(big), ch.pick(big)
        if n > 30 and m > 30:
            raise Prune()
        datas = [S.tree(kind, n).data(ch.pick(['table', 'packed'])), S.tree('groups' if kind == 'pages' else 'pages', m).data('table')]
    elif what == 'objects':
        kind = ch.pick(['objects', 'revisions', 'links', 'array', 'deletions'])
        n = ch.pick([10, 17, 65, 129] if kind != 'revisions' else [10, 17])
        datas = [S.document(kind, n, *ch.pick([('table', 'table'), ('packed', 'packed')]))[0], S.tree('pages', 3).data('table')]
        if ch.pick([False, True]):
            datas.reverse()
    elif what == 'numbers':
        datas = [S.document('number', ch.pick([5, 90, 246, 990, 9990]))[0], S.document('number', ch.pick([7, 91, 990]))[0]]
    elif what == 'many':
        datas = [S.tree('pages', 1 + i % 2).data(('table', 'packed')[i % 2]) for i in range(ch.pick([3, 9, 10, 11, 17, 33]))]
    else:
        datas = [S.tree('pages', ch.pick([1, 2, 3])).data('table')]
    ch.note(f'{what}: {len(datas)} documents of {[len(d) for d in datas]} bytes')
    target = ch.pick([True, False])
    doc = pdf.loads(datas[0])
    e = G.everything(G.of_doc(doc))
    want, rest = e['pages'], e['catalog and information']
    if what == 'doubling':
        for _ in range(ch.pick([2, 4, 6])):
            doc, want = doc + doc, want + want
            ch.step()
    for d in datas[1:]:
        other = pdf.loads(d)
        e = G.everything(G.of_doc(other))
        doc = pdf.concat(doc, other, target)
        want = want + e['pages']
        rest = rest if target else e['catalog and information']
        ch.step()
    verify(doc, want, rest, 'after concatenation')
    if len(want) < 40:
        i = ch.pick(sorted({0, len(want) // 2, len(want) - 1}))
        if len(want) > 1:
            verify(pdf.remove_pages(doc, i), want[:i] + want[i + 1:], rest, f'after removing page {i}')
            verify(pdf.squash(doc), want, rest, 'after squash')
    ch.state((what, [len(d) for d in datas], target))
    ch.outcome((what, len(want)))


def harnesses(tier):
    t = tier == 'thorough'
    ops = ['remove', 'keep', 'rotate', 'again', 'self', 'squash', 'reload', 'commit', 'annot']
    return [Harness('trees', h(3 if t else 2, 0, []), 2, 'every pair of trees, 2 deviations'),
            Harness('then', h(3 if t else 2, 2, ops), 1 if t else 0, 'then two more operations'),
            Harness('then, with attributes', h(2 if t else 1, 1, ops if t else ['remove', 'keep', 'rotate', 'again', 'squash', 'annot'], hist=True), 2, 'attributes, histories and one more operation'),
            Harness('organisations', h_plus(M.ALL if t else M.CORE + ['big offsets', 'unlisted xref stream']), 0, 'documents of every file organisation'),
            Harness('sizes', h_sizes, note='up to 65 + 11 pages, many or distant object numbers, up to 33 documents in a row, a document added to itself 6 times')]
