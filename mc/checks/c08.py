"""C08: reloading a written document gives back the document that was written."""
import pdfsyntax as pdf
from mc.engine import Harness, Prune
from mc import model as M, scale as S
from mc.checks.c05 import trail
from mc.common import expect, write, same
from mc import refpdf as R


def look(doc):
    """Everything observable of a document that must survive a round trip."""
    return {'content': M.canon_content(M.content(doc)), 'trailer': R.canon(M.norm(trail(pdf.trailer(doc)))),
            'catalog': R.canon(M.norm(list(pdf.catalog(doc)))), 'pages': R.canon(M.norm(pdf.pages(doc))),
            'number': pdf.number_pages(doc), 'len': len(doc), 'version': pdf.version(doc)}


def roundtrip(doc, ch=None):
    before = look(doc)
    pend = len(pdf.changes(doc))
    want = pdf.updates(doc) + (1 if pend else 0)
    data, doc2 = write(doc)
    new = pdf.loads(data)
    after = look(new)
    for k in before:
        expect(before[k] == after[k], lambda: f'{k} changed by writing and loading: {before[k]!r} became {after[k]!r}')
    expect(pdf.updates(new) == want, lambda: f'{want} revisions written, {pdf.updates(new)} read')
    expect(pdf.updates(doc2) == want, lambda: f'{want} revisions written, {pdf.updates(doc2)} in memory')
    mid = look(doc2)
    expect(mid == before, 'the document returned by writefile differs')
    expect(pdf.changes(doc2) == [] and pdf.changes(new) == [], 'pending changes after writing')
    return data, new


def h(depth, names, more, edits=None):
    def run(ch):
        name, doc, m = M.drive(ch, names, depth, more, edits=edits)
        data, new = roundtrip(doc)
        c = M.content(new)
        expect(M.canon_content(c) == M.canon_content(m.live), lambda: M.diff(c, m.live))
        ch.outcome((name, len(data)))
    return run


PAGE_OPS = [('rotate', 0), ('rotate', 1), ('rotateall',), ('annot', 0), ('annot', 1), ('remove', 0), ('keep', 1), ('self',), ('other',),
            ('into',), ('slice',), ('squash',), ('compress',), ('add',), ('del', 9), ('set', 9), ('version',), ('force',), ('filter',)]


def other():
    return pdf.rotate(pdf.blank('A5'), 270)


def page_op(doc, op, k):
    """Page-level and whole-document operations (no model: the document in memory is the reference)."""
    kind = op[0]
    n = pdf.number_pages(doc)
    if kind == 'rotate':
        return pdf.rotate(doc, 90, [op[1]])
    if kind == 'rotateall':
        return pdf.rotate(doc, 180)
    if kind == 'annot':
        return pdf.add_text_annotation(doc, op[1], 'note %d' % k, [0, 0, 10, 10 + k])
    if kind == 'remove':
        return pdf.remove_pages(doc, op[1])
    if kind == 'keep':
        return pdf.keep_pages(doc, op[1])
    if kind == 'slice':
        return doc[-1:]
    if kind == 'self':
        return doc + doc
    if kind == 'other':
        return doc + other()
    if kind == 'into':
        return pdf.concat(other(), doc, target_left=False)
    if kind == 'squash':
        return pdf.squash(doc)
    if kind == 'compress':
        return pdf.compress(doc)
    if kind == 'version':
        return pdf.update_version(doc, '1.8')
    if kind == 'force':
        return pdf.force_xref_stream(doc)
    if kind == 'filter':
        return pdf.apply_filter(doc, pdf.list_streams(doc))
    if kind == 'add':
        return pdf.add_object(doc, [k, b'(added)'])[0]
    if kind == 'set':
        return pdf.update_object(doc, op[1], [k, b'(set)'])
    if kind == 'del':
        return pdf.update_object(doc, op[1], None)
    if kind == 'commit':
        return pdf.commit(doc)
    if kind == 'rewind':
        return pdf.rewind(doc)
    if kind == 'reload':
        return pdf.loads(write(doc)[0])
    raise AssertionError(op)


def page_enabled(doc, ops):
    """Operations of the alphabet that make sense: at least one page stays, the number is in use."""
    n = pdf.number_pages(doc)
    out = []
    live = {int(r.imag) for r in pdf.in_use(doc)}
    for op in ops:
        k = op[0]
        if k in ('rotate', 'annot', 'keep') and op[1] >= n:
            continue
        if k == 'remove' and n < 2:
            continue
        if k in ('set', 'del') and (op[1] not in live or not isinstance(pdf.get_object(doc, complex(0, op[1])), list)):
            continue
        if k == 'rewind' and pdf.updates(doc) < 1:
            continue
        if k in ('self', 'other', 'into') and n > 6:
            continue
        out.append(op)
    return out


def h_pages(depth, names, ops):
    def run(ch):
        name = ch.pick(names)
        ch.note(f'document: {name}')
        doc, _ = M.start(name)
        for k in range(depth):
            op = ch.pick([('stop',)] + page_enabled(doc, [o for o in ops if o[0] != 'rewind' or name != 'empty update']))
            if op[0] == 'stop':
                break
            ch.note(op)
            doc = page_op(doc, op, k)
            ch.step()
        data, new = roundtrip(doc)
        ch.state((name, repr(look(doc))))
        ch.outcome(len(data))
    return run

BIG_OPS = [('rotateall',), ('annot', 0), ('remove', 0), ('keep', 1), ('self',), ('into',), ('slice',), ('squash',), ('compress',), ('add',), ('del', 9), ('set', 9), ('force',), ('filter',), ('commit',),
           ('many',), ('set all',), ('del all',)]


def big_op(doc, op, k, n):
    """Page and document operations, and edits of n objects."""
    if op[0] == 'many':
        for j in range(n):
            doc, _ = pdf.add_object(doc, [k, j, 1j] if j % 5 else pdf.forge_stream({}, b'%d' % j)[0])
        return doc
    if op[0] in ('set all', 'del all'):
        keep = {int(r.imag) for r, _ in pdf.flat_page_tree(doc)} | {int(pdf.catalog(doc)[1].imag), int(pdf.catalog(doc)[0]['/Pages'].imag)}
        for r in pdf.in_use(doc):
            v = pdf.get_object(doc, r)
            x = int(r.imag)
            if x in keep or M.structural(v) or isinstance(v, dict) and v.get('/Type') in ('/Pages', '/Font'):
                continue
            if op[0] == 'set all':
                doc = pdf.update_object(doc, x, {'/Was': x, '/K': k} if not isinstance(v, pdf.Stream) else pdf.forge_stream({'/Was': x}, b'new %d' % x)[0])
            elif isinstance(v, (int, float, str)) and x > 9:
                doc = pdf.update_object(doc, x, None)
        return doc
    return page_op(doc, op, k)


def big_enabled(doc, kind):
    own = [o for o in BIG_OPS if len(o) == 1 and o[0] in ('many', 'set all', 'del all')]
    out = page_enabled(doc, [o for o in BIG_OPS if o not in own])
    if pdf.number_pages(doc) <= 70:
        out += [o for o in (('self',), ('into',)) if o not in out]
    return out + own


def h_sizes(depth):
    def run(ch):
        kind, n, form, data, f = S.choose(ch, S.FEW if depth == 1 else S.FEW[:4])
        doc = pdf.loads(data)
        for k in range(depth):
            op = ch.pick(big_enabled(doc, kind))
            ch.note(op)
            doc = big_op(doc, op, k, n)
            ch.step()
        data, new = roundtrip(doc)
        ch.state((kind, n, form, repr(ch.lines)))
        ch.outcome((kind, n, len(data)))
    return run


def h_structural(depth):
    """The caller replaces or deletes an earlier cross-reference stream or the linearisation dictionary."""
    def run(ch):
        name = ch.pick(M.ALL)
        pre = ch.pick(['', 'force', 'compress', 'commit'])
        doc, _ = M.start(name)
        if pre == 'force':
            doc = pdf.commit(pdf.update_object(pdf.force_xref_stream(doc), 3, pdf.get_object(doc, 3j)))
        elif pre == 'compress':
            doc = pdf.compress(doc)
        elif pre == 'commit':
            doc = pdf.commit(pdf.update_object(doc, 3, pdf.get_object(doc, 3j)))
        nums = [int(r.imag) for r in pdf.in_use(doc) if M.structural(pdf.get_object(doc, r)) and not (type(pdf.get_object(doc, r)) == pdf.Stream and pdf.get_object(doc, r)['entries']['/Type'] == '/ObjStm')]
        n = ch.pick(nums)
        seq = []
        for k in range(depth):
            op = ch.pick([('set', n), ('del', n), ('filter',)] + ([('commit',), ('add',)] if k else []))
            seq.append(op)
            if op[0] in ('set', 'del'):
                if n not in {int(r.imag) for r in pdf.in_use(doc)}:
                    raise Prune()
                doc = pdf.update_object(doc, n, {'/Mine': k} if op[0] == 'set' else None)
            else:
                doc = page_op(doc, op, k)
        ch.note((name, pre, seq))
        roundtrip(doc)
        ch.step()
        ch.state((name, pre, repr(seq)))
        ch.outcome((name, pre))
    return run


def harnesses(tier):
    t = tier == 'thorough'
    more = [('commit',), ('rewind',), ('reload',)]
    end = [('commit',), ('rewind',)]
    return [Harness('objects', h(4 if t else 2, M.ALL, more), note='object edits on every organisation'),
            Harness('objects, deeper', h(5 if t else 4, M.CORE, more, [('set', 9), ('del', 9), ('add',)]), note='object edits on the core organisations'),
            Harness('pages', h_pages(3 if t else 2, M.ALL, PAGE_OPS + end), note='page and document operations on every organisation'),
            Harness('pages, deeper', h_pages(4 if t else 3, ['blank', 'packed flate'] if not t else M.CORE, PAGE_OPS + end), note='page and document operations on the core organisations'),
            Harness('structural numbers', h_structural(4 if t else 3), note='earlier cross-reference streams and linearisation dictionaries replaced or deleted by the caller'),
            Harness('sizes', h_sizes(2 if t else 1), note='documents large in one dimension, every operation')]
