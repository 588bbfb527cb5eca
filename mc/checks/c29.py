"""C29: the font listing has each font once, with its attributes and exactly the pages that name it."""
import pdfsyntax as pdf
from mc.engine import Harness, Prune
from mc import refpdf as R, files as F
from mc.common import expect, write

CMAP = R.S({}, b'1 beginbfchar\n<41> <0041>\nendbfchar')
NAMES = {'plain': '/Abc', 'subset': '/ABCDEF+Abc-Bold', 'punctuation': '/A,B.c_d', 'long': '/' + 'x' * 70, 'none': None}


def font(kind='/Type1', name='/Abc', enc=None, uni=False, extra=None):
    f = {'/Type': '/Font', '/Subtype': kind}
    if name:
        f['/BaseFont'] = name
    if enc:
        f['/Encoding'] = enc
    if uni:
        f['/ToUnicode'] = uni
    f.update(extra or {})
    return f


FONTS = [font('/Type1', '/First'), font('/TrueType', '/Second', '/WinAnsiEncoding', 9j), font('/Type1', '/Third', {'/Type': '/Encoding', '/BaseEncoding': '/MacRomanEncoding'})]
FACTS = [{'name': 'First', 'type': 'Type1', 'encoding': 'built-in', 'to_unicode': False}, {'name': 'Second', 'type': 'TrueType', 'encoding': 'WinAnsiEncoding', 'to_unicode': True},
         {'name': 'Third', 'type': 'Type1', 'encoding': 'other', 'to_unicode': False}]
DIRECT = font('/Type1', '/Direct', '/WinAnsiEncoding')
DFACT = {'name': 'Direct', 'type': 'Type1', 'encoding': 'WinAnsiEncoding', 'to_unicode': False}

MAPS = [{}, {'/F1': 0}, {'/F1': 1}, {'/F1': 0, '/F2': 1}, {'/F1': 1, '/F2': 0}, {'/F1': 0, '/F2': 0}, {'/F1': 2, '/F2': 1, '/F3': 0}, {'/F1': 'direct'}, {'/F1': 'direct', '/F2': 'direct', '/F3': 0}, {'/F1': 'null', '/F2': 0},
        {'/F1': 'missing', '/F2': 1}]
WAYS = ['own', 'own, indirect resources', 'own, indirect fonts', 'own, all indirect', 'inherited', 'inherited, null', 'no fonts', 'fonts null', 'fonts missing', 'nothing']


class Build:
    def __init__(self):
        self.objs = {1: {'/Type': '/Catalog', '/Pages': 2j}, 9: CMAP}
        for i, f in enumerate(FONTS):
            self.objs[6 + i] = f
        self.nxt = 20

    def new(self, v):
        self.nxt += 1
        self.objs[self.nxt - 1] = v
        return complex(0, self.nxt - 1)

    def res(self, m, way):
        d = {}
        for k, v in m.items():
            d[k] = DIRECT if v == 'direct' else None if v == 'null' else 99j if v == 'missing' else complex(0, 6 + v)
        if way in ('own, indirect fonts', 'own, all indirect'):
            d = self.new(d)
        r = {'/ProcSet': ['/PDF'], '/Font': d}
        if way in ('own, indirect resources', 'own, all indirect'):
            r = self.new(r)
        return r


def check(doc, use):
    """use: per page {name: font number or 'direct'}"""
    want = {}
    for i, m in enumerate(use):
        for k, v in m.items():
            if v in ('null', 'missing'):
                continue
            key, fact = ((i, k), DFACT) if v == 'direct' else (complex(0, 6 + v), FACTS[v])
            e = want.setdefault(key, {**fact, 'pages': []})
            if i not in e['pages']:
                e['pages'].append(i)
    got = pdf.fonts(doc)
    got = {k: {x: v[x] for x in ('name', 'type', 'encoding', 'to_unicode', 'pages')} for k, v in got.items()}
    for v in got.values():
        v['pages'] = sorted(v['pages']) if len(set(v['pages'])) == len(v['pages']) else v['pages']
    expect(got == want, lambda: f'fonts {got}, expected {want}')
    for i, m in enumerate(use):
        res = pdf.get_page_fonts(doc, [i])[0]
        names = {k for k, v in m.items() if v not in ('null', 'missing')}
        expect(set(res) == names, lambda: f'page {i} has the font names {sorted(res)}, expected {sorted(names)}')
    return tuple(sorted((str(k), tuple(v['pages'])) for k, v in want.items()))


def h_assign(npages, ways, maps, nested):
    def h(ch):
        b = Build()
        top = ch.pick(maps) if nested != 'none' else None
        mid = ch.pick([None] + maps) if nested == 'two levels' else None
        kids, use = [], []
        inherited = mid if mid is not None else top
        par = 3j if mid is not None else 2j
        notes = []
        for i in range(npages):
            way = ch.pick(ways)
            p = {'/Type': '/Page', '/Parent': par, '/MediaBox': [0, 0, 9, 9]}
            if way.startswith('own'):
                m = ch.pick(maps)
                p['/Resources'] = b.res(m, way)
            elif way == 'no fonts':
                m = {}
                p['/Resources'] = {'/ProcSet': ['/PDF']}
            elif way == 'fonts null':
                m = {}
                p['/Resources'] = {'/Font': None}
            elif way == 'fonts missing':
                m = {}
                p['/Resources'] = {'/Font': 99j}
            elif way == 'nothing':
                m = {}
                p['/Resources'] = {}
            else:
                m = inherited or {}
                if way == 'inherited, null':
                    p['/Resources'] = None
                elif inherited is None and nested == 'none':
                    raise Prune()
            notes.append((way, m))
            use.append(m)
            kids.append(b.new(p))
        root = {'/Type': '/Pages', '/Kids': kids, '/Count': npages}
        b.objs[2] = root
        if mid is not None:
            b.objs[3] = {**root, '/Parent': 2j, '/Resources': b.res(mid, 'own')}
            b.objs[2] = {'/Type': '/Pages', '/Kids': [3j], '/Count': npages}
        if top is not None:
            b.objs[2]['/Resources'] = b.res(top, ch.dev(['own', 'own, all indirect']))
        ch.note(f'{notes} root {top} node {mid}')
        ch.state((tuple(map(str, notes)), str(top), str(mid)))
        f = F.assemble([(b.objs, (), ch.dev(['table', 'stream', 'packed']), {})], {})
        doc = pdf.loads(f.data)
        ch.step()
        r = check(doc, use)
        if ch.dev([0, 1]):
            check(pdf.loads(write(pdf.update_object(doc, 1, {**b.objs[1], '/X': 1}))[0]), use)
        ch.outcome(r)
    return h


def h_attributes(ch):
    kind = ch.pick(['/Type1', '/MMType1', '/TrueType', '/Type3', '/Type0'])
    label = ch.pick(list(NAMES))
    name = NAMES[label]
    enc = ch.pick([None, '/WinAnsiEncoding', '/MacRomanEncoding', '/MacExpertEncoding', '/StandardEncoding', '/Identity-H', 'dict', 'stream', 'null'])
    uni = ch.pick([None, 'stream', 'null', 'missing', '/Identity-H'])
    how = ch.pick(['direct', 'indirect'])
    direct = ch.pick([False, True])
    extra = {}
    d = {}
    if enc:
        v = {'dict': {'/Differences': [65, '/B']}, 'stream': R.S({'/Type': '/CMap'}, b'1 begincodespacerange <00> <ff> endcodespacerange'), 'null': None}.get(enc, enc)
        if how == 'indirect' or enc == 'stream':
            extra[30] = v
            v = 30j
        d['/Encoding'] = v
    if name:
        v = name
        if how == 'indirect':
            extra[31] = v
            v = 31j
        d['/BaseFont'] = v
    elif kind == '/Type3':
        d['/Name'] = '/F7'
    if uni:
        extra[32] = CMAP
        d['/ToUnicode'] = {'stream': 32j, 'null': None, 'missing': 98j}.get(uni, uni)
    d['/Subtype'] = kind
    if how == 'indirect':
        extra[33] = kind
        d['/Subtype'] = 33j
    d['/Type'] = '/Font'
    if kind == '/Type0':
        extra[34] = {'/Type': '/Font', '/Subtype': '/CIDFontType2', '/BaseFont': name or '/Abc', '/CIDSystemInfo': {}, '/W': [1, [500, 600], 5, 9, 700]}
        d['/DescendantFonts'] = [34j]
    elif ch.dev([0, 1]):
        d.update({'/FirstChar': 65, '/LastChar': 66, '/Widths': [500, 600]})
    objs = {1: {'/Type': '/Catalog', '/Pages': 2j}, 2: {'/Type': '/Pages', '/Kids': [3j], '/Count': 1}, 3: {'/Type': '/Page', '/Parent': 2j, '/MediaBox': [0, 0, 9, 9], '/Resources': {'/Font': {'/F7': d if direct else 5j}}},
            5: d, **extra}
    f = F.assemble([(objs, (), ch.dev(['table', 'packed']), {})], {})
    ch.note(f'{kind} {label} {enc} {uni} {how} direct={direct}')
    ch.state((kind, label, enc, uni, how, direct))
    got = pdf.fonts(pdf.loads(f.data))
    ch.step()
    expect(list(got) == [(0, '/F7') if direct else 5j], f'fonts {list(got)}')
    g = list(got.values())[0]
    want = {'type': kind[1:], 'name': name[1:] if name else 'F7' if kind == '/Type3' else '', 'pages': [0]}
    if uni != '/Identity-H':
        want['to_unicode'] = uni == 'stream'
    if enc in (None, 'null'):
        if kind == '/Type1':
            want['encoding'] = 'built-in'
    elif enc in ('dict', 'stream'):
        want['encoding'] = 'other'
    else:
        want['encoding'] = enc[1:]
    have = {k: g[k] for k in want}
    expect(have == want, f'font {have}, expected {want}')
    ch.outcome(tuple(sorted(map(str, g.items()))))


def h_revisions(ch):
    """A later revision changes a font, a page's resources, or both."""
    b = Build()
    m0, m1 = ch.pick(MAPS), ch.pick(MAPS)
    way = ch.pick(WAYS[:4])
    b.objs[2] = {'/Type': '/Pages', '/Kids': [3j, 4j], '/Count': 2}
    page = {'/Type': '/Page', '/Parent': 2j, '/MediaBox': [0, 0, 9, 9]}
    b.objs[3] = {**page, '/Resources': b.res(m0, way)}
    b.objs[4] = {**page, '/Resources': b.res(m1, way)}
    form = ch.dev(['table', 'packed'])
    what = ch.pick(['resources', 'font', 'swap', 'delete', 'through the library'])
    steps = [(b.objs, (), form, {})]
    use = [m0, m1]
    if what in ('resources', 'through the library'):
        m2 = ch.pick(MAPS)
        c = Build()
        new = {**page, '/Resources': c.res(m2, 'own')}
        use = [m2, m1]
        if what == 'resources':
            steps.append(({3: new}, (), form, {}))
    elif what == 'font':
        steps.append(({6: FONTS[2]}, (), form, {}))
    elif what == 'swap':
        steps.append(({2: {**b.objs[2], '/Kids': [4j, 3j]}}, (), form, {}))
        use = [m1, m0]
    else:
        steps.append(({2: {**b.objs[2], '/Kids': [4j], '/Count': 1}}, (3,), form, {}))
        use = [m1]
    f = F.assemble(steps, {})
    doc = pdf.loads(f.data)
    ch.note(f'{m0} {m1} {way} then {what}')
    ch.state((str(m0), str(m1), way, what, str(use)))
    if what == 'through the library':
        check(doc, [m0, m1])
        doc = pdf.update_object(doc, 3, new)
    if what == 'font':
        global FACTS
        old = FACTS
        FACTS = [FACTS[2], *FACTS[1:]]
        try:
            r = check(doc, use)
        finally:
            FACTS = old
    else:
        r = check(doc, use)
    ch.step()
    ch.outcome(r)

def h_sizes(ch):
    """Many fonts, many pages, many names."""
    what = ch.pick(['fonts on a page', 'one font on many pages', 'own fonts', 'names for one font', 'direct fonts', 'inherited', 'distant', 'revisions'])
    n = ch.pick([9, 10, 11, 16, 17, 32, 33, 64, 65, 99, 100, 101, 128, 129, 255, 256, 257])
    npages = n if what in ('one font on many pages', 'own fonts', 'inherited') else 2
    objs = {1: {'/Type': '/Catalog', '/Pages': 2j}, 9: CMAP}
    first = 100 * n if what == 'distant' else 2000
    nfonts = {'fonts on a page': n, 'own fonts': n, 'distant': 3, 'revisions': 2}.get(what, 1)
    facts = []
    for i in range(nfonts):
        kind, enc, uni = ('/Type1', '/TrueType')[i % 2], (None, '/WinAnsiEncoding', '/MacRomanEncoding')[i % 3], i % 5 == 1
        objs[first + i] = font(kind, '/Font%d' % i, enc or ('/StandardEncoding' if kind != '/Type1' else None), 9j if uni else False)
        facts.append({'name': 'Font%d' % i, 'type': kind[1:], 'encoding': (enc or ('/StandardEncoding' if kind != '/Type1' else '/built-in'))[1:], 'to_unicode': uni})
    use = []
    kids = []
    for p in range(npages):
        if what in ('fonts on a page', 'distant'):
            m = {'/F%d' % i: i for i in range(nfonts)} if p == 0 else {'/G': nfonts - 1}
        elif what == 'own fonts':
            m = {'/F1': p}
        elif what == 'names for one font':
            m = {'/F%d' % i: 0 for i in range(n)}
        elif what == 'direct fonts':
            m = {'/F%d' % i: 'direct' for i in range(n)}
        else:
            m = {'/F1': 0}
        use.append(m)
        page = {'/Type': '/Page', '/Parent': 2j, '/MediaBox': [0, 0, 9, 9]}
        if what != 'inherited':
            page['/Resources'] = {'/Font': {k: {**DIRECT, '/Name': k} if v == 'direct' else complex(0, first + v) for k, v in m.items()}}
        objs[10 + p] = page
        kids.append(complex(0, 10 + p))
    objs[2] = {'/Type': '/Pages', '/Kids': kids, '/Count': npages}
    if what == 'inherited':
        objs[2]['/Resources'] = {'/Font': {'/F1': complex(0, first)}}
    form = ch.pick(['table', 'packed'])
    steps = [(objs, (), form, {'index_mode': 1} if what == 'distant' and form == 'packed' else {})]
    if what == 'revisions':
        if n > 65:
            raise Prune()
        for k in range(n):
            use[0] = {'/F1': k % 2}
            steps.append(({10: {**objs[10], '/Resources': {'/Font': {'/F1': complex(0, first + k % 2)}}}}, (), form, {}))
    ch.note((what, n, form))
    doc = pdf.loads(F.assemble(steps, {}).data)
    want = {}
    for i, m in enumerate(use):
        for k, v in m.items():
            key, fact = ((i, k), DFACT) if v == 'direct' else (complex(0, first + v), facts[v])
            e = want.setdefault(key, {**fact, 'pages': []})
            if i not in e['pages']:
                e['pages'].append(i)
    got = {k: {x: v[x] for x in ('name', 'type', 'encoding', 'to_unicode', 'pages')} for k, v in pdf.fonts(doc).items()}
    expect(got == want, lambda: f'{len(got)} fonts, expected {len(want)}; differing: {[(k, got.get(k), want.get(k)) for k in list(want) + list(got) if got.get(k) != want.get(k)][:2]}')
    for i in sorted({0, 1, 9, 10, npages // 2, npages - 1} & set(range(npages))):
        res = pdf.get_page_fonts(doc, [i])[0]
        expect(set(res) == set(use[i]), lambda: f'page {i} has the font names {sorted(res)}')
    ch.step(len(want))
    ch.state((what, n, form))
    ch.outcome((what, len(want)))


def harnesses(tier):
    t = tier == 'thorough'
    return [Harness('attributes', h_attributes, 1, 'every kind, name, encoding and Unicode mapping'),
            Harness('one page', h_assign(1, WAYS, MAPS, 'two levels'), 2 if t else 1, 'every mapping at two tree nodes and the page'),
            Harness('two pages', h_assign(2, WAYS, MAPS if t else MAPS[2:4] + MAPS[5:9:2] + MAPS[9:], 'one level'), 1 if t else 0, 'every pair of pages below a node with fonts'),
            Harness('three pages', h_assign(3, WAYS if t else ['own', 'own, all indirect', 'inherited'], MAPS if t else MAPS[1:4] + MAPS[7:8], 'one level' if not t else 'none'), 0, 'triples of pages'),
            Harness('revisions', h_revisions, 1, 'fonts and resources changed by a later revision'),
            Harness('sizes', h_sizes, note='up to 257 fonts, names or pages, 65 revisions')]
