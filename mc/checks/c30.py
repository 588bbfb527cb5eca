"""C30: work on one document never affects another.

Every execution runs in a fresh child process forked before any document was touched, so that the state a
sequence leaves in the modules cannot reach the next execution, nor the runs it is compared with."""
import gc
import io
import os
import pickle
import traceback
import pdfsyntax as pdf
from mc.engine import Harness, Prune, Violation, h64
from mc import refpdf as R, files as F
from mc.common import expect, norm, scratch


def seed(which):
    """Two documents with the same object numbers and different content."""
    x = which == 'B'
    root = {'/Type': '/Pages', '/Kids': [3j, 4j], '/Count': 2, '/MediaBox': [0, 0, 300, 400] if x else [0, 0, 612, 792], '/Resources': {'/Font': {'/F1': 7j, '/F2': 8j}}}
    if x:
        root['/Rotate'] = 90
    text = b'BT /F1 12 Tf 50 300 Td (%s) Tj /F2 9 Tf 0 -30 Td <4142> Tj ET'
    objs = {1: {'/Type': '/Catalog', '/Pages': 2j}, 2: root,
            3: {'/Type': '/Page', '/Parent': 2j, '/Contents': 5j}, 4: {'/Type': '/Page', '/Parent': 2j, '/Contents': [5j, 6j]},
            5: R.S({}, text % (b'second' if x else b'first')), 6: R.S({}, b'q 1 0 0 1 5 5 cm BT /F1 20 Tf 9 9 Td 2 Tc (more %s) Tj' % which.encode()),
            7: {'/Type': '/Font', '/Subtype': '/Type1', '/BaseFont': '/B' if x else '/A', '/Encoding': '/MacRomanEncoding' if x else '/WinAnsiEncoding', '/FirstChar': 32, '/Widths': [300 if x else 600] * 96},
            8: {'/Type': '/Font', '/Subtype': '/TrueType', '/BaseFont': '/D', '/ToUnicode': 9j},
            9: R.S({}, b'1 beginbfrange\n<41> <42> <%s>\nendbfrange' % (b'0061' if x else b'0391')),
            10: {'/Title': b'(Title of %s)' % which.encode(), '/Author': b'<FEFF00%s>' % (b'42' if x else b'41')}}
    if not x:
        objs[4]['/Rotate'] = 180
    steps = [(objs, (), 'packed' if x else 'table', {'trailer': {'/Info': 10j}}), ({10: {'/Title': b'(New title of %s)' % which.encode()}}, (), 'stream' if x else 'table', {})]
    return F.assemble(steps, {})


SEEDS = {w: seed(w).data for w in 'AB'}
SHARED = {'/Shared': [1, {'/Deep': [b'(x)']}], '/Ref': 3j}
DIR = None
ANNOT_RECT = [1, 2, 3, 4]


def origins(name):
    """The two documents of a start, made when each is first needed: [maker, maker]."""
    if name == 'two files':
        return [lambda: pdf.loads(SEEDS['A']), lambda: pdf.loads(SEEDS['B'])]
    if name == 'same bytes':
        return [lambda: pdf.loads(SEEDS['A'])] * 2
    if name == 'on demand':
        return [lambda: pdf.load(io.BytesIO(SEEDS['A']), mode='CONTINUOUS'), lambda: pdf.load(io.BytesIO(SEEDS['B']), mode='CONTINUOUS')]
    if name == 'same file on demand':
        f = io.BytesIO(SEEDS['A'])
        return [lambda: pdf.load(f, mode='CONTINUOUS')] * 2
    if name == 'blanks':
        return [lambda: pdf.blank('A4'), lambda: pdf.blank('A5')]
    base = pdf.loads(SEEDS['A'])
    if name == 'same ancestor':
        return [lambda: base] * 2
    if name == 'two edits':
        return [lambda: pdf.update_object(base, 3, {**pdf.get_object(base, 3j), '/L': 1}), lambda: pdf.add_object(base, {'/R': 1})[0]]
    if name == 'and its squash':
        return [lambda: base, lambda: pdf.squash(base)]
    if name == 'and a page of it':
        return [lambda: base, lambda: pdf.keep_pages(base, {1})]
    if name == 'and a concatenation':
        other = pdf.loads(SEEDS['B'])
        return [lambda: other, lambda: pdf.concat(base, other)]
    raise AssertionError(name)


STARTS = ['two files', 'same bytes', 'on demand', 'same file on demand', 'blanks', 'same ancestor', 'two edits', 'and its squash', 'and a page of it', 'and a concatenation']


def texts(doc):
    return [pdf.extract_page_text(doc, i) for i in range(len(pdf.pages(doc)))]


def out_bytes(doc):
    p = os.path.join(DIR, f'c30_{os.getpid()}.pdf')
    d = pdf.writefile(doc, p)
    with open(p, 'rb') as f:
        b = f.read()
    os.unlink(p)
    return d, b


def facts(doc):
    return pdf.structure(doc), pdf.metadata(doc), pdf.version(doc), repr(doc), len(doc)


def contents(doc):
    return [(r, R.canon(norm(pdf.get_object(doc, r)))) for r in sorted(pdf.in_use(doc), key=lambda c: c.imag)]


def listing(doc):
    return R.canon(norm([pdf.pages(doc), pdf.pages(doc, 1)])), pdf.page_layouts(doc), [(n, R.canon(norm(i))) for n, i in pdf.flat_page_tree(doc)]


def fonts(doc):
    return sorted(map(repr, pdf.fonts(doc).items()))


def show(doc):
    doc2, b = out_bytes(doc)
    return doc2, b


def page(doc):
    r = pdf.flat_page_tree(doc)[0][0]
    return pdf.update_object(doc, int(r.imag), {**pdf.get_object(doc, r), '/Shared': SHARED})


def delete(doc):
    for r in sorted(pdf.in_use(doc), key=lambda c: -c.imag):
        v = pdf.get_object(doc, r)
        if type(v) != dict or v.get('/Type') not in ('/Page', '/Pages', '/Catalog'):
            return pdf.update_object(doc, int(r.imag), None)
    return doc


OPS = {
    'list': lambda d: (d, listing(d)), 'text': lambda d: (d, texts(d)), 'fonts': lambda d: (d, fonts(d)), 'facts': lambda d: (d, facts(d)), 'read': lambda d: (d, contents(d)),
    'rotate': lambda d: (pdf.rotate(d), None), 'rotate one': lambda d: (pdf.rotate(d, 180, [0]), None),
    'annotate': lambda d: (pdf.add_text_annotation(d, 0, 'note', ANNOT_RECT), None),
    'shared': lambda d: pdf.add_object(d, SHARED), 'page': lambda d: (page(d), None),
    'delete': lambda d: (delete(d), None),
    'commit': lambda d: (pdf.commit(d), None), 'rewind': lambda d: (pdf.rewind(d), None) if len(d.index) > 1 else (d, None), 'squash': lambda d: (pdf.squash(d), None), 'compress': lambda d: (pdf.compress(d), None),
    'keep': lambda d: (pdf.keep_pages(d, {0}), None), 'remove': lambda d: (pdf.remove_pages(d, {0}), None) if len(pdf.pages(d)) > 1 else (d, None),
    'double': lambda d: (pdf.concat(d, d), None), 'write': show, 'version': lambda d: (pdf.update_version(d, '2.0'), None),
    'iterate': lambda d: (d, [contents(p) for p in d]),
}
OPS_SMALL = ['list', 'text', 'rotate', 'annotate', 'shared', 'page', 'delete', 'squash', 'compress', 'keep', 'double', 'write', 'rewind']
OPS_TINY = ['text', 'rotate', 'annotate', 'page', 'squash', 'double', 'write', 'rewind']


def final(doc):
    # writing last: it is the operation most likely to disturb what the others see
    return [contents(doc), listing(doc), texts(doc), R.canon(norm(pdf.trailer(doc))), out_bytes(doc)[1]]


def perform(start, seqs, schedule):
    """Observations of each side: results of its operations, then its final state."""
    makers = origins(start)
    docs = [None, None]
    todo = [list(s) if s is not None else None for s in seqs]
    seen = [[], []]
    for s in schedule:
        if docs[s] is None:
            docs[s] = makers[s]()
            seen[s].append('made')
        else:
            op = todo[s].pop(0)
            docs[s], r = OPS[op](docs[s])
            seen[s].append((op, r))
    for s in (0, 1):
        if seqs[s] is not None:
            seen[s].append(('final', final(docs[s])))
    return seen


def child(fn, *args):
    """Result of fn(*args) in a child process."""
    global DIR
    DIR = scratch()         # made here: the child must not own (and remove) it
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            gc.disable()
            try:
                out = pickle.dumps((True, fn(*args)))
            except Exception as e:
                out = pickle.dumps((False, traceback.format_exc()[-1500:]))
            with os.fdopen(w, 'wb') as f:
                f.write(out)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    try:
        with os.fdopen(r, 'rb') as f:
            data = f.read()
    finally:
        os.waitpid(pid, 0)
    if not data:
        raise Violation('the process running the two documents died')
    return pickle.loads(data)


ALONE = {}


def alone(start, side, seq):
    k = (start, side, seq)
    if k not in ALONE:
        seqs = [None, None]
        seqs[side] = seq
        ALONE[k] = child(perform, start, seqs, [side] * (1 + len(seq)))
    return ALONE[k]


def interleavings(a, b):
    if not a or not b:
        return [(0,) * a + (1,) * b]
    return [(0,) + x for x in interleavings(a - 1, b)] + [(1,) + x for x in interleavings(a, b - 1)]


def h_two(la, lb, ops, starts, schedules=None):
    """Every interleaving of loading and la operations on one document, loading and lb on another."""
    def h(ch):
        start = ch.pick(starts)
        seqs = [tuple(ch.pick(ops) for _ in range(la)), tuple(ch.pick(ops) for _ in range(lb))]
        ok = [alone(start, s, seqs[s]) for s in (0, 1)]
        for s in (0, 1):
            expect(ok[s][0], lambda: f'{seqs[s]} alone on document {s} of {start}: {ok[s][1]}')
        schedule = ch.pick(schedules or interleavings(la + 1, lb + 1))
        ch.note(f'{start}: {seqs[0]} and {seqs[1]} in the order {schedule}')
        good, got = child(perform, start, seqs, schedule)
        expect(good, lambda: f'interleaved: {got}')
        ch.step(la + lb + 2)
        for s in (0, 1):
            want = ok[s][1][s]
            ch.state(repr(want[-1]))
            if got[s] != want:
                for x, y in zip(got[s], want):
                    if x != y:
                        break
                if x[0] == 'final':
                    parts = ['content', 'pages', 'text', 'trailer', 'file']
                    x, y, p = [(u, v, n) for u, v, n in zip(x[1], y[1], parts) if u != v][0]
                else:
                    p = f'result of {x[0]}'
                raise Violation(f'{p} of document {s}: {str(x)[:700]}, alone: {str(y)[:700]}')
        ch.outcome(repr(got))
    return h


def harnesses(tier):
    t = tier == 'thorough'
    allops = list(OPS)
    hs = [Harness('one and one', h_two(1, 1, allops, STARTS if t else ['two files', 'same ancestor']), 0, 'every pair of operations, every order'),
          Harness('one and one, related documents', h_two(1, 1, OPS_SMALL, STARTS, None if t else [(0, 1, 0, 1), (0, 1, 1, 0)]), 0, 'every pair of documents'),
          Harness('two and one', h_two(2, 1, OPS_SMALL if t else OPS_TINY, STARTS if t else ['two files']), 0, 'two operations on one document, one on another')]
    if t:
        hs.append(Harness('one and two', h_two(1, 2, OPS_SMALL, STARTS[5:]), 0, 'one operation on one document, two on another'))
        hs.append(Harness('two and two', h_two(2, 2, OPS_TINY, ['two files', 'same ancestor']), 0, 'two operations on each document'))
    return hs
