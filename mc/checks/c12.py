"""C12: the change list reports exactly the pending additions, updates and deletions."""
import pdfsyntax as pdf
from mc.engine import Harness
from mc import files as F, model as M, scale as S

OPS = [('set', 9), ('sets', 8), ('del', 9), ('re', 9), ('add',), ('set', 3), ('commit',), ('rewind',), ('reload',)]
OPS_B = [('set', 3), ('sets', 3), ('del', 4), ('re', 4), ('add',), ('adds',), ('set', 4), ('commit',), ('rewind',), ('reload',)]


def h(depth, names):
    def run(ch):
        name = ch.pick(names)
        doc, m = M.start(name)
        ops = []
        ch.note(f'document: {name}')
        M.observe_changes(doc, m)
        for k in range(depth):
            op = ch.pick(M.enabled(m, OPS_B if name == 'blank' else OPS))
            ops.append(op)
            ch.note(op)
            doc = M.apply(doc, m, op, k)
            M.observe_changes(doc, m)
            M.observe_repr(doc, m)
            c = M.content(doc)
            M.expect(set(c) == set(m.live), lambda: f'in use {sorted(c)}, expected {sorted(m.live)}')
            ch.step()
            ch.state((name, m.key()))
        ch.outcome((name, repr(sorted(m.pending().items())), len(m.closed)))
    return run

def h_sizes(ch):
    """Many pending changes of every kind, in documents of many objects and revisions."""
    kind, n, form, data, f = S.choose(ch, S.COARSE, ['objects', 'revisions', 'number', 'deletions'], F.FORMS)
    doc, m = pdf.loads(data), M.Model(f)
    what = ch.pick(['add', 'set', 'delete', 'mixed', 'twice', 'undone'])
    ch.note(what)
    extra = [x for x in m.live if x > 9]
    if what in ('add', 'mixed'):
        doc = M.apply(doc, m, ('many', n), 1)
    if what in ('set', 'twice', 'mixed'):
        for x in extra[::2] if what == 'mixed' else extra:
            doc = M.apply(doc, m, ('set', x), 2)
    if what in ('delete', 'mixed', 'undone'):
        for x in extra[1::2] if what == 'mixed' else extra:
            doc = M.apply(doc, m, ('del', x), 3)
    if what == 'twice':
        for x in extra:
            doc = M.apply(doc, m, ('sets', x), 4)
    if what == 'undone':
        for x in extra:
            doc = M.apply(doc, m, ('re', x), 5)
    for k in range(2):
        M.observe_changes(doc, m)
        M.observe_repr(doc, m)
        c = M.content(doc)
        M.expect(set(c) == set(m.live), lambda: f'in use {sorted(c)}, expected {sorted(m.live)}')
        ch.step()
        doc = M.apply(doc, m, ('commit',), 6)
    ch.state((kind, n, form, what))
    ch.outcome((kind, n, what))


def harnesses(tier):
    t = tier == 'thorough'
    return [Harness('every organisation', h(4 if t else 3, M.ALL), note='every sequence of %d edits, commits, rewinds and reloads on %d documents' % (4 if t else 3, len(M.ALL))),
            Harness('core organisations', h(5 if t else 4, M.CORE), note='deeper sequences on %d documents' % len(M.CORE)),
            Harness('sizes', h_sizes, note='up to 257 pending changes of every kind')]
