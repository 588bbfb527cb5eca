"""C05: every object resolves to its newest definition, in any file organisation."""
import pdfsyntax as pdf
from mc.engine import Harness, Prune
from mc import files as F, refpdf as R
from mc.common import same, expect, BASE

STRUCT = {'/Size', '/Prev', '/XRefStm', '/Type', '/W', '/Index', '/Length', '/Filter', '/DecodeParms', '/Linearized'}


def trail(t):
    return {k: v for k, v in t.items() if k not in STRUCT}


def compare(doc, state, structural, trailer, maxnum, where=''):
    for n in range(1, maxnum + 1):
        if n in structural:
            continue
        g, want = state.get(n, (0, None))
        got = pdf.get_object(doc, complex(g, n))
        expect(same(got, want), lambda: f'{where}object {n} is {got!r}, expected {want!r}')
    for n in structural:
        got = pdf.get_object(doc, complex(0, n))
        ok = isinstance(got, pdf.Stream) and got.entries.get('/Type') in ('/XRef', '/ObjStm') or isinstance(got, dict) and '/Linearized' in got
        expect(ok, f'{where}structural object {n} is {got!r}')
    for n in (maxnum + 1, maxnum + 2, 99999):
        got = pdf.get_object(doc, complex(0, n))
        expect(got is None or got == 'null', f'{where}undefined object {n} is {got!r}')
    use = set(pdf.in_use(doc))
    want = {complex(state[n][0], n) for n in state} | {complex(0, n) for n in structural}
    expect(use == want, lambda: f'{where}in use: {sorted(use, key=str)}, expected {sorted(want, key=str)}')
    t = trail(pdf.trailer(doc))
    expect(same(t, trail(trailer)), f'{where}trailer {t!r}, expected {trailer!r}')
    root, ref = pdf.catalog(doc)
    expect(same(root, state[1][1]) and ref == 1j, f'{where}catalog {root!r}')


def h_hist(nums, nrev, form_sets, devs=True, histories=None):
    def h(ch):
        gap = ch.dev([0, 3]) if devs else 0
        numbers = [n + (gap if n > nums[0] else 0) for n in nums]
        if histories:
            hist = [([numbers['45'.index(c)] for c in a], [numbers['45'.index(c)] for c in b]) for a, b in ch.pick(histories)]
        else:
            hist = F.hist_choices(ch, numbers, nrev)
        forms = [ch.pick(form_sets[r]) for r in range(nrev)]
        steps = []
        kinds = {n: ch.dev(list(range(8))) for n in numbers} if devs else {n: 0 for n in numbers}
        gens = {n: ch.dev([0, 3]) for n in numbers} if devs else {}
        regen = ch.dev([1, 0]) if devs else 1
        for r, (sets, dels) in enumerate(hist):
            at = {'gens': gens, 'regen': regen}
            if devs:
                at['style'] = ch.dev([0, 1, 2])
                at['pad'] = ch.dev([0, 1, 300, 70000])
                at['order'] = ch.dev([None, 'reverse'])
                at['trailer'] = ch.dev([{}, {'/Info': 2j}, {'/ID': [b'<00>', b'<01>']}, {'/X': 'null' if r else 1}])
                if forms[r] != 'table':
                    at['widths'] = ch.dev([None, [1, 4, 2], [2, 3, 1], [1, 2, 0], [0, 3, 1], [0, 4, 0], [1, 8, 4]])
                    at['filt'] = ch.dev([None, '/FlateDecode', '/ASCIIHexDecode', ['/ASCII85Decode', '/FlateDecode']])
                    if at['filt'] == '/FlateDecode':
                        at['predictor'] = ch.dev([0, 12])
                    at['index_mode'] = ch.dev([0, 1])
                    at['container'] = ch.dev([None, '/FlateDecode'])
                    at['packorder'] = ch.dev([0, 1])
                    at['unpacked'] = ch.dev([(), (1,), (numbers[0],)])
                else:
                    at['tsep'] = ch.dev([None, b'', b' ', b'\n%c\n'])
                    at['split'] = ch.dev([False, True])
                    if r == 0:
                        at['index_mode'] = ch.dev([0, 1])
                if forms[r] in ('packed', 'hybrid'):
                    at['osep'] = ch.dev([b'\n', b' ', b'\n%c (\n'])
                    at['oend'] = ch.dev([b'\n', b'', b'\n%c (\n'])
                    at['ohead'] = ch.dev(['plain', 'lines', 'tight'])
                if forms[r] == 'hybrid':
                    at['hide'] = ch.dev(['free', 'absent', 'direct', 'stream frees'])
                at['free'] = ch.dev([(), (12,), (12, 15)])
            objs = {n: F.value(n, r, kinds[n]) for n in sets}
            if r == 0:
                objs = {**BASE, **objs}
                if devs and forms[0] in ('table', 'stream'):
                    at['lin'] = ch.dev([None, (1, 3), (1, 3, numbers[0])])
            steps.append((objs, dels, forms[r], at))
        opts = {}
        if devs:
            opts['eol'] = ch.dev([b'\n', b'\r\n', b'\r'])
            opts['binary'] = ch.dev([True, False])
        f = F.assemble(steps, opts)
        data = f.data
        if devs:
            tail = ch.dev(['', 'noeol', 'blank', 'crlf'])
            if tail == 'noeol':
                data = data.rstrip(b'\r\n')
            elif tail:
                data += {'blank': b'\n\n', 'crlf': b'\r\n'}[tail]
        ch.note(f'history={hist} forms={forms} ' + repr([(r.style, r.lin, r.gens, r.widths, r.filt, r.predictor) for r in f.revs]))
        ref = R.RefDoc(data, strict=False)
        live = ref.live()
        for n, (g, v) in f.states[-1].items():      # the generated file means what we believe, per the reference reader
            assert live[n][0] == g and same(live[n][1], v), (n, live.get(n), g, v)
        assert set(live) == set(f.states[-1]) | f.structural[-1], (set(live), f.states[-1], f.structural[-1])
        ch.state((repr(hist), tuple(forms), data))
        doc = pdf.loads(data)
        ch.step(f.maxnum + 5)
        compare(doc, f.states[-1], f.structural[-1], f.trailers[-1], f.maxnum)
        ch.outcome(R.canon({str(n): v for n, (g, v) in f.states[-1].items()}))
    return h


def h_tiny(ch):
    """Revisions of a few dozen bytes: several start pointers near the end of the file."""
    form = ch.pick(['table', 'stream'])
    f = F.assemble([({**BASE, 4: F.value(4, 0), 5: F.value(5, 0)}, (), form, {})], {})
    data, state = f.data, dict(f.states[-1])
    prev = int(data[data.rindex(b'startxref') + 9:].split()[0])
    sep = ch.pick([b'\n', b'\r\n', b'\r'])
    root = 1j
    n = ch.pick([1, 2, 3])
    for r in range(n):
        what = ch.pick(['trailer', 'number', 'delete'])
        body, table = b'', b'0 0' + sep
        x = len(data)
        if what == 'number':
            body = b'4 0 obj %d endobj' % r + sep
            table = b'4 1' + sep + b'%010d 00000 n' % x + (b' ' + sep)[-2:]
            state[4] = (0, r)
        elif what == 'delete':
            table = b'4 1' + sep + b'0000000000 00001 f' + (b' ' + sep)[-2:]
            state.pop(4, None)
        end = ch.pick([sep, b''])
        x += len(body)
        data += body + b'xref' + sep + table + b'trailer<</Size %d/Root 1 0 R/Prev %d>>startxref' % (max(6, f.maxnum + 1), prev) + sep + b'%d' % x + sep + b'%%EOF'
        if end == b'' and r < n - 1:
            end = sep
        data += end
        prev = x
        ch.note(f'{form}: {what}')
    ch.state(data)
    R.RefDoc(data, strict=False)
    doc = pdf.loads(data)
    ch.step()
    compare(doc, state, f.structural[-1], {'/Root': root}, f.maxnum)
    expect(pdf.updates(doc) == n + 1, f'{pdf.updates(doc)} revisions, expected {n + 1}')
    ch.outcome(repr(state.get(4)))


def h_sizes(ch):
    """Many revisions, objects, subsections; large numbers, generations and offsets."""
    kind = ch.pick(['revisions', 'objects', 'subsections', 'update all', 'delete all', 'delete some', 'object number', 'generation', 'offset', 'free', 'gap'])
    n = ch.pick([1, 2, 8, 9, 10, 11, 16, 17, 32, 33, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 513, 1025, 4097, 9999, 10000, 65534, 65535, 65536, 70000])
    form = ch.pick(F.FORMS)
    form2 = ch.pick(F.FORMS)
    if n > {'revisions': 101, 'object number': 70000, 'gap': 70000, 'generation': 65534, 'offset': 70000}.get(kind, 513):
        raise Prune()
    if n > 300 and kind in ('objects', 'subsections', 'update all', 'delete all', 'delete some', 'free') and form2 not in (form, 'table'):
        raise Prune()
    if n > 5000 and form != form2 and kind in ('object number', 'gap'):
        raise Prune()
    v = F.value
    second = ({9: v(9, 1), 4: v(4, 1)}, (), form2, {})
    some = {i: v(i, 0, i % 8) for i in range(4, 10 + n)} if n < 5000 else {}
    if kind == 'revisions':
        steps = [({**BASE, 9: v(9, 0)}, (), form, {})] + [({4 + r % 7: v(4 + r % 7, r)}, (9,) if r == n // 2 and r % 7 != 5 else (), (form, form2)[r % 2], {}) for r in range(1, n + 1)]
    elif kind == 'objects':
        steps = [({**BASE, **some}, (), form, {}), second]
    elif kind == 'subsections':
        steps = [({**BASE, **some}, (), form, {'index_mode': 1}), ({i: v(i, 1) for i in some if i % 2}, (), form2, {'split': True} if form2 in ('table', 'hybrid') else {'index_mode': 1})]
    elif kind == 'update all':
        steps = [({**BASE, **some}, (), form, {}), ({i: v(i, 1, (i + 1) % 8) for i in some}, (), form2, {})]
    elif kind == 'delete all':
        steps = [({**BASE, **some}, (), form, {}), ({9: v(9, 1)}, tuple(i for i in some if i != 9), form2, {})]
    elif kind == 'delete some':
        steps = [({**BASE, **some}, (), form, {}), ({}, tuple(i for i in some if i % 3), form2, {}), ({i: v(i, 2) for i in some if i % 3 == 1}, (), form, {'regen': True})]
    elif kind == 'object number':
        steps = [({**BASE, 9: v(9, 0), 10 + n: v(10 + n, 0)}, (), form, {'index_mode': 1}), ({10 + n: v(10 + n, 1), 4: v(4, 1)}, (), form2, {'index_mode': 1})]
    elif kind == 'gap':
        steps = [({**BASE, 9: v(9, 0)}, (), form, {}), ({10 + n: v(10 + n, 1)}, (9,), form2, {'index_mode': 1})]
    elif kind == 'generation':
        steps = [({**BASE, 9: v(9, 0), 5: v(5, 0)}, (), 'table', {'gens': {9: n}}), ({9: v(9, 1)}, (5,), form, {}), ({4: v(4, 1)}, (), form2, {})]
    elif kind == 'offset':
        steps = [({**BASE, 9: v(9, 0)}, (), form, {'pad': n}), ({9: v(9, 1), 4: v(4, 1)}, (), form2, {'pad': n})]
    elif kind == 'free':
        steps = [({**BASE, 9: v(9, 0)}, (), form, {'free': tuple(range(12, 12 + n))}), second]
    ch.state((kind, n, form, form2))
    ch.note(f'{kind} {n} {form} {form2}')
    f = F.assemble(steps, {})
    live = R.RefDoc(f.data, strict=False).live()
    for i, (g, x) in f.states[-1].items():
        assert live[i][0] == g and same(live[i][1], x), (i, live.get(i), g, x)
    doc = pdf.loads(f.data)
    ch.step(f.maxnum + 5)
    compare(doc, f.states[-1], f.structural[-1], f.trailers[-1], f.maxnum)
    expect(pdf.updates(doc) == len(steps), f'{pdf.updates(doc)} revisions, expected {len(steps)}')
    ch.outcome((kind, n))


# histories used where format deviations are combined: replace, delete, delete and re-create, late definition
RICH = [(('45', ''), ('4', '5')), (('4', ''), ('5', '')), (('45', ''), ('', '45'))]
RICH3 = [(('45', ''), ('', '45'), ('4', '')), (('4', ''), ('5', '4'), ('45', ''))]


def harnesses(tier):
    t = tier == 'thorough'
    A = F.FORMS
    out = [
        Harness('two objects, three revisions', h_hist([4, 5], 3, [A, A, A], devs=False),
                note='every set/delete history of two objects over three revisions, every mix of four organisations'),
        Harness('variants', h_hist([4, 5], 2, [A, A]), bound=1,
                note='every history of two objects over two revisions with one format deviation (gaps, generations, widths, filters, layout, linearisation, line endings...)'),
        Harness('variant pairs', h_hist([4, 5], 2, [A, A], histories=RICH if t else RICH[:1]), bound=2, note='%d rich histories of two revisions with every pair of format deviations' % (3 if t else 1)),
        Harness('variants of three revisions', h_hist([4, 5], 3, [A, A, A], histories=RICH3), bound=1, note='two histories of three revisions, one deviation'),
    ]
    out.append(Harness('sizes', h_sizes, note='up to 101 revisions, 1025 objects, subsections, deletions; numbers, gaps, generations and offsets up to 70000, every pair of forms'))
    out.append(Harness('tiny revisions', h_tiny, note='one to three revisions of less than 100 bytes'))
    if t:
        out += [Harness('three objects, three revisions', h_hist([4, 5, 6], 3, [A, A, A], devs=False), note='as above with three objects'),
                Harness('two objects, four revisions', h_hist([4, 5], 4, [A, A, A, A], devs=False), note='four revisions'),
                Harness('variants 2', h_hist([4, 5], 2, [A, A]), bound=2, note='every history over two revisions, two deviations'),
                Harness('variants 3', h_hist([4, 5], 3, [A, A, A]), bound=1, note='every history over three revisions, one deviation')]
    return out
