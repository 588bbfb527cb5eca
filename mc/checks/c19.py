"""C19: adding a text annotation adds exactly that annotation."""
import itertools
import pdfsyntax as pdf
from mc.engine import Harness, Prune
from mc import graph as G, trees as T, refpdf as R, files as F, model as M, strings, scale as S
from mc.common import expect, norm, write

STATES = ['absent', 'empty', 'direct refs', 'direct dicts', 'array', 'empty array', 'null', 'null ref', 'dangling', 'direct empty']
CHARS = ['a', '(', ')', '\\', '\n', '\r', 'é', '€', '\U0001d11e', '\ufeff', '\x00', '<', '%', 'þ', 'ÿ', '中', '\t', '\xad', '\x7f', '~', ' ', '•']


def annots(t, state, i):
    """Value of /Annots, or None when absent."""
    a = {'/Type': '/Annot', '/Subtype': '/Link', '/Rect': [i, 0, 1, 1]}
    b = {'/Type': '/Annot', '/Subtype': '/Text', '/Rect': [i, 1, 2, 2], '/Contents': b'(old)'}
    if state == 'direct empty' or state == 'empty':
        return []
    if state == 'direct refs':
        return [t.new(a), t.new(b)]
    if state == 'direct dicts':
        return [a, t.new(b)]
    if state == 'array':
        return t.new([t.new(a), t.new(b)])
    if state == 'empty array':
        return t.new([])
    if state == 'null':
        return 'null'
    if state == 'null ref':
        return t.new(None)
    if state == 'dangling':
        return complex(0, 90)
    return None


def entries(view, eff):
    v = view.res(eff.get('/Annots'))
    return v or []


def check_annot(view, ref, text, rect, opened):
    a = view.res(ref)
    expect(isinstance(a, dict) and a.get('/Subtype') == '/Text' and a.get('/Type', '/Annot') == '/Annot', lambda: f'annotation {a!r}')
    expect(R.canon(view.res(a.get('/Rect'))) == R.canon(list(rect)), lambda: f"rectangle {a.get('/Rect')!r}, expected {rect!r}")
    expect(view.res(a.get('/Open', False)) is opened, lambda: f"open state {a.get('/Open')!r}, expected {opened!r}")
    c = view.res(a.get('/Contents'))
    expect(isinstance(c, bytes), lambda: f'text {c!r}')
    got = strings.text(c)
    expect(got == text, lambda: f'text {got!r} ({c!r}), expected {text!r}')
    lib = pdf.text_string(c)
    expect(lib == text, lambda: f'text {lib!r} ({c!r}), expected {text!r}')


def verify(before, view, page, count, text, rect, opened):
    """before: (pages canonical without /Annots, annotation lists) of the previous document."""
    w = G.walk(view)
    for i, (ref, eff) in enumerate(w):
        c = G.canon_graph(view, eff, True, ('/Parent', '/Annots'))
        expect(c == before['plain'][i], lambda: f"page {i} was {before['plain'][i]!r} and became {c!r}")
        now = [G.canon_graph(view, x) for x in entries(view, eff)]
        old = before['annots'][i]
        if i == page:
            expect(len(now) == len(old) + 1, lambda: f'page {i} has {len(now)} annotations instead of {len(old) + 1}')
            expect(now[:-1] == old, lambda: f'earlier annotations were {old!r} and became {now[:-1]!r}')
            check_annot(view, entries(view, eff)[-1], text, rect, opened)
        else:
            expect(now == old, lambda: f'annotations of page {i} were {old!r} and became {now!r}')
    expect(G.rest(view) == before['rest'], 'the catalog or the information dictionary changed')


def remember(view):
    w = G.walk(view)
    return {'plain': [G.canon_graph(view, eff, True, ('/Parent', '/Annots')) for r, eff in w],
            'annots': [[G.canon_graph(view, x) for x in entries(view, eff)] for r, eff in w], 'rest': G.rest(view)}


def h_places(maxnodes, depth):
    def run(ch):
        t = T.Tree(ch.pick(T.shapes(maxnodes)))
        o = t.objs
        o[t.root].update({'/MediaBox': [0, 0, 100, 100], '/Resources': {}})
        for i, n in enumerate(t.leaf):
            s = ch.pick(STATES[:-1]) if i == 0 else ch.dev(STATES[:-1], f'annotations of page {i}')
            v = annots(t, s, i)
            if v is not None:
                o[n]['/Annots'] = v
            o[n]['/K'] = i
        first = o[t.leaf[0]].get('/Annots')
        if isinstance(first, complex) and first != 90j:
            share = ch.pick(['no', 'last page', 'catalog', 'array'])
            if share == 'last page':
                if len(t.leaf) < 2:
                    raise Prune()
                o[t.leaf[-1]]['/Annots'] = first
            elif share == 'catalog':
                o[1]['/AcroForm'] = {'/Fields': first}
            elif share == 'array':
                o[1]['/Lists'] = t.new([1j, [first]])
        form = ch.dev(['table', 'packed', 'stream'], 'form')
        doc = pdf.loads(t.data(form))
        ch.note(o)
        for k in range(depth):
            page = ch.pick(range(len(t.leaf)))
            text = f'note {k}'
            rect = [k, 0, 10.5, 20 + k]
            opened = ch.pick((False, True))
            before = remember(G.of_doc(doc))
            objs = {x: R.canon(norm(v[1])) for x, v in M.content(doc).items()}
            doc2 = pdf.add_text_annotation(doc, page, text, rect, opened) if opened else pdf.add_text_annotation(doc, page, text, rect)
            ch.note(f'annotation on page {page}')
            verify(before, G.of_doc(doc2), page, 1, text, rect, opened)
            new = {x: R.canon(norm(v[1])) for x, v in M.content(doc2).items()}
            own = {int(r.imag) for r in [G.walk(G.of_doc(doc))[page][0], G.walk(G.of_doc(doc))[page][1].get('/Annots')] if isinstance(r, complex)}
            for x in objs:
                if x not in own:
                    expect(new.get(x) == objs[x], lambda: f'object {x} was {objs[x]!r} and became {new.get(x)!r}')
            data, _ = write(doc2)
            verify(before, G.of_file(data), page, 1, text, rect, opened)
            verify(before, G.of_doc(pdf.loads(data)), page, 1, text, rect, opened)
            doc = ch.dev([doc2, pdf.commit(doc2), pdf.loads(data)])
            ch.step()
            ch.state((repr(o), page, opened, k))
        ch.outcome((form, len(t.leaf)))
    return run


def h_text(length, chars):
    def run(ch):
        n = ch.pick(range(length + 1))
        text = ''.join(ch.pick(chars) for _ in range(n))
        rect = ch.dev([[0, 0, 10, 10], [-1, -2.5, 0.001, 1e-7], [100000.25, 1e20, 0, 0]], 'rect')
        doc = pdf.loads(F.organisation(ch.dev(['table', 'packed'])).data) if n < 2 else pdf.blank()
        ch.note(repr(text))
        before = remember(G.of_doc(doc))
        doc2 = pdf.add_text_annotation(doc, 0, text, rect, True)
        data, _ = write(doc2)
        back = pdf.loads(data)
        for view in (G.of_doc(doc2), G.of_file(data), G.of_doc(back)):
            if rect == [0, 0, 10, 10]:
                verify(before, view, 0, 1, text, rect, True)
            else:
                a = view.res(entries(view, G.walk(view)[0][1])[-1])
                expect(all(abs(x - y) <= 1e-6 * max(1, abs(y)) for x, y in zip(a['/Rect'], rect)), lambda: f"rectangle {a['/Rect']!r}, expected {rect!r}")
        ch.step(3)
        ch.state(text)
        ch.outcome((len(text), text.isascii()))
    return run

def h_sizes(ch):
    """Many annotations, many pages, long texts."""
    what = ch.pick(['row', 'pages', 'existing', 'long', 'distant'])
    if what == 'long':
        n = ch.pick([30, 60, 63, 64, 65, 100, 126, 127, 128, 129, 253, 254, 255, 256, 257, 500, 1000, 1023, 1024, 1025, 4096, 5000, 32767, 65536])
        text = {'plain': 'note text ', 'escapes': 'a(b)c\\\n', 'latin': 'caf\xe9 \u20ac', 'wide': '\u4e2d(\U0001d11e)', 'one': 'x', 'open': '('}[ch.pick(['plain', 'escapes', 'latin', 'wide', 'one', 'open'])]
        text = (text * n)[:n]
        doc = pdf.blank()
        before = remember(G.of_doc(doc))
        d2 = pdf.add_text_annotation(doc, 0, text, [0, 0, 10, 10], True)
        data, _ = write(d2)
        ch.note(f'{n} characters {text[:12]!r}')
        for view in (G.of_doc(d2), G.of_file(data), G.of_doc(pdf.loads(data))):
            verify(before, view, 0, 1, text, [0, 0, 10, 10], True)
        ch.step()
        ch.state((what, n, text[:5]))
        ch.outcome(what)
        return
    if what == 'distant':
        data = S.document('number', ch.pick([90, 246, 990, 9990]), *ch.pick([('table', 'table'), ('packed', 'packed')]))[0]
        doc, n, m = pdf.loads(data), 3, 1
    else:
        m = ch.pick([1, 9, 10, 11, 17, 65]) if what == 'pages' else 2
        t = S.tree(ch.pick(['pages', 'groups']), m)
        n = ch.pick([9, 10, 11, 17, 33]) if what == 'row' else 2
        if what != 'row' or ch.pick([False, True]):
            for i, p in enumerate(t.leaf[:3]):
                a = [t.new({'/Type': '/Annot', '/Subtype': '/Link', '/Rect': [j, 0, 1, 1]}) for j in range(ch.pick([9, 10, 11, 33, 100]) if what == 'existing' and i == 1 else 1)]
                t.objs[p]['/Annots'] = t.new(a) if what == 'existing' and ch.pick([False, True]) else a
        doc = pdf.loads(t.data(ch.pick(['table', 'packed'])))
    mode = ch.pick(['-', 'commit', 'reload'] if what != 'pages' else ['-', 'reload'])
    ch.note(f'{what}: {n} annotations, {m} pages, {mode}')
    for k in range(n):
        page = {'row': k % m, 'pages': (m - 1, m // 2)[k % 2], 'existing': 1, 'distant': 0}[what]
        before = remember(G.of_doc(doc))
        doc = pdf.add_text_annotation(doc, page, f'note {k}', [k, 0, 10.5, 20 + k], k % 2 == 1)
        verify(before, G.of_doc(doc), page, 1, f'note {k}', [k, 0, 10.5, 20 + k], k % 2 == 1)
        if mode == 'commit':
            doc = pdf.commit(doc)
        elif mode == 'reload' or k == n - 1:
            data, _ = write(doc)
            verify(before, G.of_file(data), page, 1, f'note {k}', [k, 0, 10.5, 20 + k], k % 2 == 1)
            doc = pdf.loads(data)
        ch.step()
    ch.state((what, n, m, mode))
    ch.outcome((what, n))


def harnesses(tier):
    t = tier == 'thorough'
    return [Harness('places', h_places(3 if t else 2, 3 if t else 2), 2 if t else 1, 'annotations on pages of every tree with every kind of /Annots'),
            Harness('texts', h_text(3 if t else 2, CHARS), 1, 'every text over the alphabet'),
            Harness('longer texts', h_text(5 if t else 4, ['a', '(', ')', '\\', 'é'][:5 if t else 5]), 0, 'nesting and escapes'),
            Harness('sizes', h_sizes, note='up to 33 annotations in a row, 100 existing ones, 65 pages, texts up to 65536 characters')]
