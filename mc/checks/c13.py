"""C13: squashing keeps the document and collapses its history."""
import pdfsyntax as pdf
from mc.engine import Harness, Prune
from mc import graph as G, trees as T, refpdf as R, model as M, scale as S
from mc.checks import c08, c17
from mc.common import expect, write, strict


def content_objects(doc):
    """Numbers of the live objects that are not there to organise the file only."""
    res = []
    for r in pdf.in_use(doc):
        o = pdf.get_object(doc, r)
        kind = o['entries'].get('/Type') if type(o) == pdf.Stream else None
        if kind not in ('/ObjStm', '/XRef') and not (type(o) == dict and '/Linearized' in o):
            res.append(int(r.imag))
    return res


def verify(doc, sq, what='squashing', coding=True):
    want = G.everything(G.of_doc(doc), coding)
    G.compare(want, G.everything(G.of_doc(sq), coding), what)
    expect(pdf.updates(sq) == 0, lambda: f'{what}: the document is at revision {pdf.updates(sq)}')
    used = sorted(int(r.imag) for r in pdf.in_use(sq))
    expect(all(r.real == 0 for r in pdf.in_use(sq)), lambda: f'{what}: generations {pdf.in_use(sq)!r}')
    kinds = {k for r, k in pdf.changes(sq)}
    expect(kinds <= {'a'}, lambda: f'{what}: changes {pdf.changes(sq)!r} are not all additions')
    expect(used == list(range(1, len(used) + 1)), lambda: f'{what}: numbers in use {used}')
    mine = content_objects(doc)
    expect(len(used) == len(mine), lambda: f'{what}: {len(used)} objects for the {len(mine)} objects {mine}')
    data, _ = write(sq)
    d = strict(data)
    expect(len(d.sections) == 1, lambda: f'{what}: {len(d.sections)} revisions written')
    gone = [n for n, e in d.entries.items() if n and e[0] == 'f']
    expect(not gone, lambda: f'{what}: deleted objects {gone} in the written file')
    G.compare(want, G.everything(G.of_file(data), coding), what + ' and writing')
    new = pdf.loads(data)
    G.compare(want, G.everything(G.of_doc(new), coding), what + ', writing and loading')
    expect(pdf.number_pages(new) == len(want['pages']), f'{what}: page count')
    return data, new, want


def h(depth, names, more):
    def run(ch):
        name, doc, m = M.drive(ch, names, depth, more, edits=EDITS, edits_b=M.EDITS_B)
        sq = pdf.squash(doc)
        data, new, want = verify(doc, sq)
        expect(M.canon_content(M.content(doc)) == M.canon_content(m.live), 'the squashed document itself changed')
        ch.step()
        ch.outcome((name, len(data)))
    return run


EDITS = [('set', 9), ('del', 9), ('re', 9), ('del', 7), ('re', 7), ('adds',), ('set', 3)]


def h_graph(maxnodes, links):
    def run(ch):
        forest = ch.pick(T.shapes(maxnodes))
        t, data = c17.world(ch, forest, None, links)
        doc = pdf.loads(data)
        # deletions, so that references dangle and numbers have gaps
        victims = [n for n in t.objs if n not in (1, *t.nodes) and isinstance(t.objs[n], (dict, R.S))]
        for n in ch.pick([(), *[(v,) for v in victims], tuple(victims[:2]), tuple(victims[::2])]):
            doc = pdf.update_object(doc, n, None)
            ch.note(f'delete {n}')
        if ch.pick((False, True)):
            doc, r = pdf.add_object(doc, {'/New': 1})
            doc = pdf.update_object(doc, t.leaf[0] if t.leaf else t.root, {**t.objs[t.leaf[0] if t.leaf else t.root], '/Add': [r, complex(0, 300), {'/D': complex(1, int(r.imag))}]})
        if ch.pick((False, True)):
            doc = pdf.commit(doc)
        ch.note(t.objs)
        sq = pdf.squash(doc)
        data, new, want = verify(doc, sq)
        ch.step()
        ch.state((repr(t.objs), len(data)))
        ch.outcome(len(data))
    return run


def h_pages(depth, names):
    def run(ch):
        name = ch.pick(names)
        doc, _ = M.start(name)
        ch.note(name)
        done = False
        for k in range(depth):
            op = ch.pick(c08.page_enabled(doc, [o for o in c08.PAGE_OPS + [('commit',), ('rewind',)] if o[0] != 'rewind' or name != 'empty update']))
            ch.note(op)
            doc = c08.page_op(doc, op, k)
        sq = pdf.squash(doc)
        data, new, want = verify(doc, sq)
        again = pdf.squash(pdf.squash(new))
        G.compare(want, G.everything(G.of_doc(again)), 'squashing twice')
        if pdf.number_pages(sq):
            r = pdf.rotate(sq, 90)
            want2 = [p for p in G.pages(G.of_doc(r))]
            G.compare_pages(want2, G.pages(G.of_file(write(r)[0])), 'rotating the squashed document')
        ch.step()
        ch.state((name, repr(want)))
        ch.outcome(len(data))
    return run

def h_sizes(depth):
    def run(ch):
        kind, n, form, data, f = S.choose(ch, S.FEW, forms=('table', 'packed'))
        doc = pdf.loads(data)
        for k in range(depth):
            o = ch.pick([('stop',)] + c08.big_enabled(doc, kind))
            if o[0] == 'stop':
                break
            ch.note(o)
            doc = c08.big_op(doc, o, k, n)
        data, *_ = verify(doc, pdf.squash(doc))
        ch.step()
        ch.state((kind, n, form, repr(ch.lines)))
        ch.outcome((kind, n, len(data)))
    return run


def harnesses(tier):
    t = tier == 'thorough'
    more = [('commit',), ('rewind',), ('reload',)]
    return [Harness('histories', h(4 if t else 2, M.ALL, more), note='object edits on every organisation'),
            Harness('longer histories', h(5 if t else 3, M.CORE if t else ['table then delete', 'gaps', 'recreated', 'linearized stream updated' if t else 'packed flate'], more), note='deeper edit sequences'),
            Harness('references', h_graph(3 if t else 2, True), 2 if t else 1, 'references between pages, shared objects and deleted objects'),
            Harness('page operations', h_pages(3 if t else 1, M.ALL), note='page and document operations before squashing'),
            Harness('sizes', h_sizes(2 if t else 1), note='documents large in one dimension, after any operation')]
