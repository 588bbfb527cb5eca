"""C28: structure facts reported for a file are true."""
import io
from fractions import Fraction
import pdfsyntax as pdf
from mc.engine import Harness, Prune
from mc import files as F, refpdf as R, trees as T, scale as SC
from mc.common import expect, write, BASE, scratch

MM = {'A0': (841, 1189), 'A1': (594, 841), 'A2': (420, 594), 'A3': (297, 420), 'A4': (210, 297), 'A5': (148, 210), 'A6': (105, 148),
      'A7': (74, 105), 'A8': (52, 74), 'A9': (37, 52), 'A10': (26, 37)}
INCH = {'US Tabloid': (11, 17), 'US Legal': (Fraction(17, 2), 14), 'US Letter': (Fraction(17, 2), 11)}
SIZES = {k: tuple(round(x / 25.4 * 72) for x in v) for k, v in MM.items()}
SIZES.update({k: tuple(int(x * 72) for x in v) for k, v in INCH.items()})
VERSIONS = ['1.0', '1.3', '1.4', '1.5', '1.7', '2.0']


def newest(*vs):
    return max((v for v in vs if v), key=lambda v: tuple(map(int, v.split('.'))))


def load(data, mode):
    if mode == 'bytes':
        return pdf.loads(data)
    if mode == 'file':
        return pdf.load(io.BytesIO(data))
    return pdf.load(io.BytesIO(data), mode='CONTINUOUS')


MODES = ['bytes', 'file', 'on demand']


def h_version(depth):
    def h(ch):
        head = ch.pick(VERSIONS)
        cat = ch.pick([None] + VERSIONS)
        where = ch.dev(['first', 'second revision', 'indirect', 'form'])
        form = 'packed' if where == 'form' else ch.dev(['table', 'stream'])
        c = dict(BASE[1])
        objs = dict(BASE)
        if cat:
            c['/Version'] = '/' + cat
            if where == 'indirect':
                c['/Version'] = 9j
                objs[9] = '/' + cat
        if where == 'second revision':
            steps = [(objs, (), form, {}), ({1: c}, (), form, {})]
        else:
            steps = [({**objs, 1: c}, (), form, {})]
        f = F.assemble(steps, {'version': head, 'binary': ch.dev([True, False])})
        ch.note(f'header {head}, catalog {cat} ({where}, {form})')
        doc = load(f.data, ch.dev(MODES))
        want = newest(head, cat)
        expect(pdf.version(doc) == want, lambda: f'version {pdf.version(doc)}, expected {want}')
        ups = []
        for k in range(depth):
            ch.state((head, cat, where, form, want))
            op = ch.pick([None, 'write'] + VERSIONS)
            ups.append(op)
            if op is None:
                break
            if op == 'write':
                data, _ = write(doc)
                doc = pdf.loads(data)
            else:
                doc = pdf.update_version(doc, op)
                want = newest(want, op)
            ch.step()
            got = pdf.version(doc)
            expect(got == want, f'version {got} after {ups}, expected {want}')
            expect(pdf.structure(doc)['Version'] == want, 'the structure has another version')
        ch.outcome((want, len(ups)))
    return h


def number(text):
    return Fraction(text)


def check_paper(got, box, name):
    """got: '210x297mm or 8.26x11.69in (A4)'"""
    size, _, kind = got.partition(' (')
    mm, _, inch = size.partition(' or ')
    x, y = abs(Fraction(str(box[2])) - Fraction(str(box[0]))), abs(Fraction(str(box[3])) - Fraction(str(box[1])))
    a = [number(t) for t in mm.removesuffix('mm').split('x')]
    b = [number(t) for t in inch.removesuffix('in').split('x')]
    for v, pt in zip(a, (x, y)):
        expect(abs(v - pt * Fraction(254, 720)) <= 1, f'paper {got} for {box}')
    for v, pt in zip(b, (x, y)):
        expect(abs(v - pt / 72) <= Fraction(1, 100), f'paper {got} for {box}')
    if name is not None:
        expect(kind == name + ')', f'paper {got} for {box}, expected {name}')


def h_paper(ch):
    name = ch.pick(list(SIZES) + ['custom', 'tiny', 'off by one', 'square'])
    x, y = SIZES.get(name, {'custom': (612, 791), 'tiny': (1, 2), 'off by one': (596, 842), 'square': (595, 595)}.get(name))
    x0, y0 = ch.dev([(0, 0), (10, 20), (-5, -7), (0.5, 0.5)])
    box = [x0, y0, x0 + x, y0 + y]
    if ch.dev([0, 1]):
        box = [box[2], box[3], box[0], box[1]]
    elif ch.dev([0, 1]):
        box = [box[0], box[3], box[2], box[1]]
    where = ch.dev(['page', 'root', 'indirect', 'elements', 'other pages'])
    form = ch.dev(['table', 'packed'])
    objs = {1: BASE[1], 2: {'/Type': '/Pages', '/Kids': [3j, 4j], '/Count': 2, '/Resources': {}}, 3: {'/Type': '/Page', '/Parent': 2j}, 4: {'/Type': '/Page', '/Parent': 2j, '/MediaBox': [0, 0, 7, 7]}}
    value = [v for v in box]
    if where == 'elements':
        objs[6] = box[2]
        value[2] = 6j
    if where in ('indirect', 'elements'):
        objs[5] = value
        value = 5j if where == 'indirect' else value
    if where == 'root':
        objs[2]['/MediaBox'] = value
    elif where == 'other pages':
        objs[2]['/MediaBox'] = [0, 0, 9, 9]
        objs[3]['/MediaBox'] = value
    else:
        objs[3]['/MediaBox'] = value
    f = F.assemble([(objs, (), form, {})], {})
    ch.note(f'{name} {box} {where} {form}')
    ch.state((name, tuple(box), where, form))
    s = pdf.structure(pdf.loads(f.data))
    ch.step()
    check_paper(s['Paper of 1st page'], box, name if name in SIZES else 'unknown')
    expect(s['Pages'] == 2, f'{s["Pages"]} pages')
    ch.outcome(s['Paper of 1st page'])


def h_pages(maxnodes):
    shapes = [s for s in T.shapes(maxnodes) if T.leaves(s)]

    def h(ch):
        shape = ch.pick(shapes)
        t = T.Tree(shape, reverse=ch.dev([False, True]))
        if not t.leaf:
            raise Prune()
        t.objs[t.root]['/MediaBox'] = [0, 0, 612, 792]
        ind = ch.dev([0, 1])
        if ind:
            t.objs[t.root]['/Count'] = t.new(len(t.leaf))
        if ch.dev([0, 1]):
            t.objs[t.root]['/Kids'] = t.new(t.objs[t.root]['/Kids'])
        doc = pdf.loads(t.data(ch.dev(['table', 'stream', 'packed'])))
        ch.note(f'{shape}')
        ch.state((shape, ind))
        s = pdf.structure(doc)
        ch.step()
        expect(s['Pages'] == len(t.leaf), f'{s["Pages"]} pages, expected {len(t.leaf)}')
        expect(len(pdf.pages(doc)) == len(t.leaf), 'list of pages')
        check_paper(s['Paper of 1st page'], [0, 0, 612, 792], 'US Letter')
        ch.outcome(len(t.leaf))
    return h


FORMS = ['table', 'stream', 'packed', 'hybrid']


def h_flags(nrev, forms):
    def h(ch):
        plan = [ch.pick(forms) for _ in range(nrev)]
        lin = ch.pick([False, True]) if plan[0] in ('table', 'stream') else False
        enc = ch.pick([None, 'direct', 'indirect', 'null', 'later'])
        steps = []
        for r, form in enumerate(plan):
            at = {'trailer': {}}
            objs = dict(BASE) if r == 0 else {4: [r]}
            e = {'/Filter': '/Standard', '/V': 1, '/R': 2, '/O': b'<00>', '/U': b'<00>', '/P': -4}
            if enc == 'direct' and r == 0:
                at['trailer']['/Encrypt'] = e
            elif enc == 'indirect' and r == 0:
                objs[8] = e
                at['trailer']['/Encrypt'] = 8j
            elif enc == 'null' and r == nrev - 1:
                at['trailer']['/Encrypt'] = 'null'
            elif enc == 'later' and r == nrev - 1:
                at['trailer']['/Encrypt'] = e
            if r == 0 and lin:
                at['lin'] = (1, 3)
            steps.append((objs, (), form, at))
        f = F.assemble(steps, {'binary': ch.dev([True, False]), 'eol': ch.dev([b'\n', b'\r\n', b'\r'])})
        data = f.data
        mode = ch.pick(MODES)
        ch.note(f'{plan} linearised {lin} encryption {enc} {mode}')
        ch.state(data)
        doc = load(data, mode)
        s = pdf.structure(doc)
        ch.step()
        want = {'Pages': 1, 'Revisions': nrev, 'Encrypted': enc not in (None, 'null'), 'Hybrid': 'hybrid' in plan, 'Linearized': lin, 'Version': '1.7'}
        got = {k: s[k] for k in want}
        expect(got == want, f'structure {got}, expected {want}')
        ch.outcome(tuple(sorted(want.items())))
        # a new revision keeps the facts
        doc = pdf.update_object(doc, 3, {**BASE[3], '/X': 1})
        out, _ = write(doc)
        s = pdf.structure(pdf.loads(out))
        want['Revisions'] += 1
        got = {k: s[k] for k in want}
        expect(got == want, f'structure after an update {got}, expected {want}')
    return h


def h_org(ch):
    name = ch.pick(list(F.organisations()))
    f = F.organisation(name)
    upto = ch.pick(range(len(f.ends)))
    data = f.data[:f.ends[upto]]
    mode = ch.pick(MODES)
    ch.note(f'{name}, {upto + 1} revisions, {mode}')
    ch.state((name, upto))
    s = pdf.structure(load(data, mode))
    ch.step()
    revs = f.revs[:upto + 1]
    want = {'Pages': 2, 'Revisions': upto + 1, 'Encrypted': False, 'Hybrid': any(r.form == 'hybrid' for r in revs), 'Linearized': bool(revs[0].lin)}
    got = {k: s[k] for k in want}
    expect(got == want, f'structure {got}, expected {want}')
    check_paper(s['Paper of 1st page'], [0, 0, 612, 792], 'US Letter')
    ch.outcome((name, upto))


def h_first(ch):
    """What stands before or as the first object does not make a file linearised, or hide it."""
    first = ch.pick(['dict', 'array', 'number', 'stream', 'string', 'linearized'])
    comments = ch.pick([b'', b'%\xe2\xe3\xcf\xd3\n', b'%a\n%b\n', b'\n\n% 5 0 obj << /Linearized 1 >>\n', b'  \n'])
    v = {'dict': {'/A': '/Linearized', '/B': b'(/Linearized 1)', '/C': {'/Linearized': 1}}, 'array': ['/Linearized', 1], 'number': 1, 'stream': R.S({}, b'/Linearized 1'), 'string': b'(/Linearized 1)',
         'linearized': {'/Linearized': 1, '/L': 1000}}[first]
    objs = {4: v, **BASE}
    rev = R.Rev(objs, order=[4, 1, 2, 3])
    data, _ = R.build([rev], root=1j, lead=comments)
    ch.note(f'{first} after {comments!r}')
    ch.state(data)
    s = pdf.structure(load(data, ch.pick(MODES)))
    ch.step()
    expect(s['Linearized'] == (first == 'linearized'), f'linearised: {s["Linearized"]}')
    ch.outcome((first, comments))


def h_blank(ch):
    size = ch.pick(list(SIZES))
    doc = pdf.blank(size)
    if ch.pick([0, 1]):
        doc = pdf.loads(write(doc)[0])
    s = pdf.structure(doc)
    ch.state(size)
    ch.step()
    check_paper(s['Paper of 1st page'], [0, 0, *SIZES[size]], size)
    expect(s['Pages'] == 1 and not s['Encrypted'] and not s['Hybrid'] and not s['Linearized'], f'{s}')
    ch.outcome(size)

def h_sizes(ch):
    """Many pages, many revisions, distant objects; large and small boxes."""
    kind = ch.pick(['objects', 'revisions', 'pages', 'groups', 'chain', 'number', 'links', 'array', 'payload', 'deletions'])
    n = ch.pick(SC.COARSE + ([300, 1000] if kind == 'pages' else []))
    form = ch.pick(['table', 'packed', 'hybrid'])
    if kind == 'revisions' and n > 65 or kind == 'chain' and n > 130 or kind in ('pages', 'groups', 'chain') and form == 'hybrid':
        raise Prune()
    data, f = SC.document(kind, n, form, form)
    mode = ch.pick(MODES)
    ch.note((kind, n, form, mode))
    doc = load(data, mode)
    s = pdf.structure(doc)
    pages = n if kind in ('pages', 'groups', 'chain') else 2
    want = {'Pages': pages, 'Revisions': 1 if pages != 2 or kind in ('pages', 'groups', 'chain') else len(f.states), 'Encrypted': False, 'Hybrid': form == 'hybrid', 'Linearized': False}
    got = {k: s[k] for k in want}
    expect(got == want, f'structure {got}, expected {want}')
    ch.step()
    ch.state((kind, n, form, mode))
    ch.outcome((kind, n))


def h_boxes(ch):
    """Boxes of every size around thresholds, whole and fractional."""
    x = ch.pick([1, 9, 10, 99, 100, 283, 594, 595, 596, 611, 612, 613, 841, 842, 843, 999, 1000, 1191, 2384, 2385, 7200, 14400, 100000, 0.5, 595.2, 595.28, 841.89, 612.5])
    y = ch.pick([1, 9, 10, 99, 100, 283, 594, 595, 596, 611, 612, 613, 791, 792, 793, 841, 842, 843, 1008, 1191, 3370, 14400, 100000, 0.5, 841.8, 841.89, 792.5])
    x0, y0 = ch.pick([(0, 0), (100, 1000), (-1000, -0.5)])
    box = [x0, y0, x0 + x, y0 + y]
    data = R.build([R.Rev({**BASE, 3: {**BASE[3], '/MediaBox': box}})])[0]
    ch.note(box)
    got = pdf.structure(pdf.loads(data))['Paper of 1st page']
    name = [k for k, v in SIZES.items() if v == (x, y)]
    whole = all(isinstance(v, int) for v in (x, y, x0, y0))
    check_paper(got, box, name[0] if name and whole else None)
    if whole and not name and (y, x) not in SIZES.values() and all(abs(x - a) + abs(y - b) > 2 for v in SIZES.values() for a, b in (v, v[::-1])):
        expect(got.endswith('(unknown)'), f'paper {got} for {box}')
    ch.step()
    ch.state(tuple(box))
    ch.outcome(got)


def harnesses(tier):
    t = tier == 'thorough'
    return [Harness('organisations', h_org, note='every revision of every organisation, every access mode'),
            Harness('blank', h_blank, note='every paper size'),
            Harness('first object', h_first, note='first objects and comments'),
            Harness('paper', h_paper, 3 if t else 2, 'every paper size, box orientation and place of the box'),
            Harness('pages', h_pages(7 if t else 5), 2, 'every page tree'),
            Harness('flags', h_flags(2, FORMS), 1 if t else 0, 'every mix of two revisions, encryption, linearisation and access modes'),
            Harness('flags, three revisions', h_flags(3, FORMS), 0, 'three revisions'),
            Harness('version', h_version(3 if t else 2), 2 if t else 1, 'header and catalog versions, then upgrades and writes'),
            Harness('sizes', h_sizes, note='documents large in one dimension, every access mode'),
            Harness('boxes', h_boxes, note='28 x 27 sizes of boxes at three places')]
