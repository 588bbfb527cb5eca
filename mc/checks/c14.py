"""C14: compression is lossless."""
import zlib
import pdfsyntax as pdf
from mc.engine import Harness, Prune
from mc import graph as G, trees as T, refpdf as R, model as M, scale as S, files as F
from mc.checks import c08, c13, c17
from mc.common import expect, write, strict


def version(v):
    return tuple(int(x) for x in v.split('.'))


def verify(doc, comp, what='compression'):
    want = G.everything(G.of_doc(doc), False)
    md = pdf.metadata(doc)
    G.compare(want, G.everything(G.of_doc(comp), False), what)
    data, _ = write(comp)
    d = strict(data)
    G.compare(want, G.everything(G.of_file(data), False), what + ' and writing')
    new = pdf.loads(data)
    G.compare(want, G.everything(G.of_doc(new), False), what + ', writing and loading')
    for x in (comp, new):
        expect(pdf.metadata(x) == md, lambda: f'{what}: metadata {pdf.metadata(x)!r} instead of {md!r}')
        expect(pdf.number_pages(x) == len(want['pages']), f'{what}: page count')
        expect(version(pdf.version(x)) >= (1, 5), lambda: f'{what}: version {pdf.version(x)}')
        expect(version(pdf.version(x)) >= version(pdf.version(doc)), lambda: f'{what}: version lowered to {pdf.version(x)}')
    expect(len(d.sections) == 1, lambda: f'{what}: the file has {len(d.sections)} cross-reference sections')
    mine, got = c13.content_objects(doc), c13.content_objects(new)
    expect(len(got) == len(mine), lambda: f'{what}: {len(got)} objects for the {len(mine)} objects {mine}')
    for n, e in d.entries.items():
        if e[0] == 'n' and n:
            o = pdf.get_object(new, complex(0, n))
            expect(type(o) == pdf.Stream or d.trailer.get('/Encrypt') == complex(0, n), lambda: f'{what}: object {n} is not in an object stream')
            flt = o['entries'].get('/Filter') if type(o) == pdf.Stream else '/FlateDecode'
            expect(flt in ('/FlateDecode', ['/FlateDecode']) or o['stream'][:1] == b'#', lambda: f'{what}: stream {n} has the filter {flt!r}')
    cat = d.get(int(d.trailer['/Root'].imag))[1]
    v = max(version(d.header_version), version(cat.get('/Version', '/1.0')[1:]))
    expect(v >= (1, 5), f'{what}: the file declares version {v}')
    return data, want


CONTENT = [b'', b'q Q\n' * 20, bytes(range(256)), b'abcd' * 5]


def stream(t, kind, content):
    e, raw = {'/Kind': '/' + kind.replace(' ', '')}, content
    if kind == 'none':
        pass
    elif kind == 'flate':
        e['/Filter'], raw = '/FlateDecode', R.encode(content, ['/FlateDecode'])
    elif kind == 'array':
        e['/Filter'], raw = ['/FlateDecode'], R.encode(content, ['/FlateDecode'])
    elif kind == 'empty array':
        e['/Filter'] = []
    elif kind == 'hex':
        e['/Filter'], raw = '/ASCIIHexDecode', R.encode(content, ['/ASCIIHexDecode'])
    elif kind == '85':
        e['/Filter'], raw = '/ASCII85Decode', R.encode(content, ['/ASCII85Decode'])
    elif kind == 'chain':
        e['/Filter'] = ['/ASCII85Decode', '/FlateDecode']
        raw = R.encode(content, e['/Filter'])
    elif kind == 'up':
        if len(content) % 4:
            raise Prune()
        e['/Filter'], e['/DecodeParms'] = '/FlateDecode', {'/Predictor': 12, '/Columns': 4}
        raw = zlib.compress(R.png_up_encode(content, 4))
    elif kind == 'up array':
        if len(content) % 4:
            raise Prune()
        e['/Filter'], e['/DecodeParms'] = ['/ASCIIHexDecode', '/FlateDecode'], [None, {'/Predictor': 12, '/Columns': 4}]
        raw = R.encode(zlib.compress(R.png_up_encode(content, 4)), ['/ASCIIHexDecode'])
    elif kind == 'no predictor':
        e['/Filter'], e['/DecodeParms'] = '/FlateDecode', {'/Predictor': 1}
        raw = zlib.compress(content)
    elif kind == 'unknown':
        e['/Filter'], e['/DecodeParms'] = '/DCTDecode', {'/ColorTransform': 1}
    elif kind == 'unknown chain':
        e['/Filter'], raw = ['/FlateDecode', '/DCTDecode'], zlib.compress(content)
    elif kind == 'unknown array':
        e['/Filter'] = ['/JPXDecode']
    elif kind == 'corrupt':
        e['/Filter'], raw = '/FlateDecode', b'not flate ' + content
    return R.S(e, raw)


KINDS = ['none', 'flate', 'array', 'empty array', 'hex', '85', 'chain', 'up', 'up array', 'no predictor', 'unknown', 'unknown chain', 'unknown array', 'corrupt']


def h_streams(n, contents, kinds=KINDS):
    def run(ch):
        t = T.Tree(((),))
        o = t.objs
        o[t.leaf[0]].update({'/MediaBox': [0, 0, 1, 1], '/Resources': {}})
        o[t.leaf[0]]['/Contents'] = [t.new(R.S({}, b'q Q'))]
        picked = []
        for k in range(n):
            kind = ch.pick(kinds)
            s = stream(t, kind, ch.pick(contents))
            picked.append((kind, len(s.raw)))
            ref = t.new(s)
            ch.dev([1, 0])
            where = ch.dev(['page', 'info', 'catalog', 'nowhere'], 'referenced from')
            host = {'page': o[t.leaf[0]], 'catalog': o[1]}.get(where)
            if host is not None:
                host['/S%d' % k] = ref
            else:
                o[1].setdefault('/Others', t.new({}))
        ch.note(picked)
        info = t.new({'/Title': b'(A title)', '/Author': t.new(b'<FEFF00E9>')})
        form = ch.dev(['table', 'packed', 'stream', 'hybrid'], 'form')
        ver = ch.dev(['1.4', '1.5', '2.0', '1.0'], 'version')
        rev = R.Rev(dict(o), form={'packed': 'stream'}.get(form, form), packed=[x for x in sorted(o) if not isinstance(o[x], R.S)] if form in ('packed', 'hybrid') else (), trailer={'/Info': info})
        data = R.build([rev], version=ver)[0]
        doc = pdf.loads(data)
        comp = pdf.compress(doc)
        out, want = verify(doc, comp)
        again = pdf.compress(comp)
        verify(comp, again, 'compressing twice')
        ch.step(2)
        ch.state((repr(picked), form, ver))
        ch.outcome(len(out))
    return run


def h_history(depth, names):
    def run(ch):
        name = ch.pick(names)
        doc, _ = M.start(name)
        ch.note(name)
        for k in range(depth):
            op = ch.pick([('stop',)] + c08.page_enabled(doc, [o for o in c08.PAGE_OPS + [('commit',), ('rewind',)] if o[0] != 'rewind' or name != 'empty update']))
            if op[0] == 'stop':
                break
            ch.note(op)
            doc = c08.page_op(doc, op, k)
        comp = pdf.compress(doc)
        out, want = verify(doc, comp)
        ch.step()
        if pdf.number_pages(comp) > 1:
            r = pdf.remove_pages(comp, 0)
            w = G.pages(G.of_doc(r), False)
            G.compare_pages(want['pages'][1:], w, 'removing a page of the compressed document')
            G.compare_pages(w, G.pages(G.of_file(write(r)[0]), False), 'writing it')
        ch.state((name, repr(want)))
        ch.outcome(len(out))
    return run


def h_edits(depth, names):
    def run(ch):
        name, doc, m = M.drive(ch, names, depth, [('commit',), ('reload',), ('many', 20), ('thin',), ('big',)], edits=[('set', 9), ('del', 9), ('re', 9), ('adds',), ('del', 7)])
        comp = pdf.compress(doc)
        out, want = verify(doc, comp)
        ch.step()
        ch.outcome((name, len(out)))
    return run

def h_sizes(depth):
    def run(ch):
        kind, n, form, data, f = S.choose(ch, [9, 10, 11, 17, 33, 64, 65, 129, 257] if depth == 1 else [9, 11, 17], forms=('table', 'packed'))
        doc = pdf.loads(data)
        for k in range(depth):
            o = ch.pick([('stop',)] + c08.big_enabled(doc, kind))
            if o[0] == 'stop':
                break
            if o[0] in ('self', 'many') and n > 33:
                raise Prune()
            ch.note(o)
            doc = c08.big_op(doc, o, k, n)
        data, *_ = verify(doc, pdf.compress(doc))
        ch.step()
        ch.state((kind, n, form, repr(ch.lines)))
        ch.outcome((kind, n, len(data)))
    return run


def harnesses(tier):
    t = tier == 'thorough'
    return [Harness('streams', h_streams(2 if t else 1, CONTENT), 2, 'streams under every filter, file forms and versions'),
            Harness('pairs of streams', h_streams(2, CONTENT[1:2] if not t else CONTENT[:3], ['none', 'flate', 'chain', 'up', 'unknown', 'unknown chain', 'corrupt']), 1, 'pairs of streams'),
            Harness('operations', h_history(3 if t else 1, M.ALL), note='page and document operations before compression'),
            Harness('operations, deeper', h_history(3 if t else 2, M.CORE if t else ['hybrid', 'linearized stream']), note='two operations'),
            Harness('edits', h_edits(3 if t else 2, M.CORE), note='object edits before compression'),
            Harness('sizes', h_sizes(2 if t else 1), note='documents large in one dimension, after any operation')]
