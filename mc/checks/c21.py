"""C21: shown character codes map to the Unicode text and widths the font defines."""
import pdfsyntax as pdf
from mc.engine import Harness, Prune
from mc import refpdf as R
from mc.common import expect, SIZES

WIN = {c: bytes([c]).decode('cp1252', 'ignore') or '•' for c in range(0x20, 256) if c not in (0x7F, 0xA0, 0xAD)}
MAC_UNDEFINED = {0x7F, 0xAD, 0xB0, 0xB2, 0xB3, 0xB6, 0xB7, 0xB8, 0xB9, 0xBA, 0xBD, 0xC3, 0xC5, 0xC6, 0xD7, 0xF0, 0xCA, 0xDB}
MAC = {c: bytes([c]).decode('mac_roman') for c in range(0x20, 256) if c not in MAC_UNDEFINED}


def token(b, how):
    """A string token that denotes the bytes b."""
    if how == 'hex':
        return b'<' + b.hex().upper().encode() + b'>'
    if how == 'lower':
        h = b.hex().encode()
        if h.endswith(b'0'):
            h = h[:-1]
        return b'<' + b'\n'.join(h[i:i + 3] for i in range(0, len(h), 3)) + b' >'
    if how == 'octal':
        return b'(' + b''.join(b'\\%03o' % c for c in b) + b')'
    out = b''
    for c in b:
        out += {0x28: b'\\(', 0x29: b'\\)', 0x5C: b'\\\\', 13: b'\\r'}.get(c, bytes([c]))
    return b'(' + out + b')'


def shown(objs, contents, size=1000):
    """Fragments the library finds on page 0: [(text, width in glyph units)]."""
    doc = pdf.loads(R.build([R.Rev(objs)])[0])
    frags = pdf.build_text_fragments(pdf.get_page_contents(doc, 0), pdf.get_page_fonts(doc, [0]))
    return [(t, b[4] - a[4], b[5] - a[5]) for a, t, b in frags]


def page(font, content, extra=None, direct=False):
    o = {1: {'/Type': '/Catalog', '/Pages': 2j}, 2: {'/Type': '/Pages', '/Kids': [3j], '/Count': 1},
         3: {'/Type': '/Page', '/Parent': 2j, '/MediaBox': [0, 0, 600, 800], '/Contents': 4j, '/Resources': {'/Font': {'/F1': font if direct else 5j, '/F0': {'/Type': '/Font', '/Subtype': '/Type1', '/BaseFont': '/Other'}}}},
         4: R.S({}, content), 5: font}
    o.update(extra or {})
    return o


def near(a, b):
    return abs(a - b) < 1e-6 * max(1, abs(b))


def compare(objs, content, want):
    got = shown(objs, content)
    expect(len(got) == len(want), lambda: f'{len(got)} fragments {got!r}, expected {want!r}')
    for (t, w, dy), (wt, ww) in zip(got, want):
        expect(wt is None or t == wt, lambda: f'text {t!r}, expected {wt!r}')
        expect(near(w, ww) and near(dy, 0), lambda: f'width {w!r} of {t!r}, expected {ww!r}')


NOTATIONS = ['raw', 'hex', 'lower', 'octal']


def h_named():
    """Every code of every named encoding, in every notation, alone and before another code."""
    def run(ch):
        enc, table = ch.pick([('/WinAnsiEncoding', WIN), ('/MacRomanEncoding', MAC), (None, {c: chr(c) for c in range(0x20, 0x7F)})])
        form = ch.pick(['name', 'dict', 'ref', 'ref dict'])
        if enc is None and form != 'name':
            raise Prune()
        extra = {}
        font = {'/Type': '/Font', '/Subtype': ch.dev(['/TrueType', '/Type1', '/MMType1']), '/BaseFont': '/Abc'}
        if enc:
            v = enc if form in ('name', 'ref') else {'/Type': '/Encoding', '/BaseEncoding': enc}
            if form.startswith('ref'):
                extra[6] = v
                v = 6j
            font['/Encoding'] = v
        codes = sorted(table)
        block = ch.pick(range(0, len(codes), 8))
        cs = codes[block:block + 8]
        nt = ch.pick(NOTATIONS)
        content = b'BT /F1 1000 Tf '
        want = []
        for c in cs:
            for b in (bytes([c]), bytes([c, 0x41]), bytes([0x37, c])):
                content += token(b, nt) + b' Tj '
                want.append((''.join(table[x] for x in b), 500 * len(b)))
        compare(page(font, content + b'ET', extra), content, want)
        ch.note((enc, form, nt, cs))
        ch.step(len(want))
        ch.state((enc, form, nt, block))
        ch.outcome(repr(want))
    return run


def cmap(codespaces, chars, ranges, layout=0):
    """A ToUnicode CMap. chars: [(code bytes, text)], ranges: [(first, last, text or [texts])]."""
    def u(s):
        return b'<' + s.encode('utf-16-be').hex().upper().encode() + b'>'

    def x(b):
        return b'<' + b.hex().encode() + b'>'
    nl = [b'\n', b' ', b'\r\n'][layout % 3]
    sp = [b' ', b'', b'  '][layout % 3]
    out = nl.join([b'/CIDInit /ProcSet findresource begin', b'12 dict begin', b'begincmap', b'/CIDSystemInfo << /Registry (Adobe) /Ordering (UCS) /Supplement 0 >> def',
                   b'/CMapName /Adobe-Identity-UCS def', b'/CMapType 2 def']) + nl
    out += b'%d begincodespacerange' % len(codespaces) + nl + nl.join(x(a) + sp + x(b) for a, b in codespaces) + nl + b'endcodespacerange' + nl
    if layout == 2:
        out += b'% a comment with <00> <01>\n'
    for group in ([chars] if layout < 2 else [chars[:1], chars[1:]]):
        if group:
            out += b'%d beginbfchar' % len(group) + nl + nl.join(x(a) + sp + u(t) for a, t in group) + nl + b'endbfchar' + nl
    for group in ([ranges] if layout < 2 else [ranges[:1], ranges[1:]]):
        if group:
            out += b'%d beginbfrange' % len(group) + nl
            out += nl.join(x(a) + sp + x(b) + sp + (u(t) if isinstance(t, str) else b'[' + b' '.join(u(y) for y in t) + b']') for a, b, t in group) + nl + b'endbfrange' + nl
    return out + nl.join([b'endcmap', b'CMapName currentdict /CMap defineresource pop', b'end', b'end'])


def mapping(chars, ranges):
    m = {}
    for b, t in chars:
        m[b] = t
    for a, b, t in ranges:
        n = len(a)
        for k, c in enumerate(range(int.from_bytes(a, 'big'), int.from_bytes(b, 'big') + 1)):
            key = c.to_bytes(n, 'big')
            if isinstance(t, str):
                m[key] = t[:-1] + chr(ord(t[-1]) + k)
            else:
                m[key] = t[k]
    return m


ONE = ([(b'\x00', b'\xff')], [(b'\x01', 'A'), (b'\x02', 'ffi'), (b'\x28', '\U0001d11e'), (b'\x5c', 'é'), (b'\xff', '中')],
       [(b'\x10', b'\x12', 'a'), (b'\x20', b'\x22', ['x', 'yy', '\U0001d11f']), (b'\x30', b'\x30', '€'), (b'\x40', b'\x42', 'fa'), (b'\x50', b'\x51', '\U0001d120'), (b'\x60', b'\x67', '\u00f8')])
TWO = ([(b'\x00\x00', b'\xff\xff')], [(b'\x00\x01', 'A'), (b'\x01\x00', 'ffi'), (b'\x28\x29', '\U0001d11e'), (b'\x5c\x0d', 'é'), (b'\xff\xff', '中'), (b'\x00\x00', 'z')],
       [(b'\x00\x10', b'\x00\x12', 'a'), (b'\x01\x20', b'\x01\x22', ['x', 'yy', '\U0001d11f']), (b'\x41\x41', b'\x41\x41', '€'), (b'\x00\x40', b'\x00\x42', 'fa'), (b'\x10\x50', b'\x10\x51', '\U0001d120')])
MIXED = ([(b'\x00', b'\x7f'), (b'\x80\x00', b'\xff\xff')], [(b'\x01', 'A'), (b'\x81\x41', 'ffi'), (b'\x41', 'é'), (b'\xff\x01', '中')],
         [(b'\x10', b'\x12', 'a'), (b'\x90\x10', b'\x90\x12', ['x', 'yy', 'z'])])


def h_tounicode(length):
    """Every string of at most `length` mapped codes, with every combination of one or two map entries."""
    def run(ch):
        cs, chars, ranges = ch.pick([ONE, TWO, MIXED])
        simple = False
        if cs == ONE[0]:
            simple = ch.pick((True, False))
        entries = [('c', e) for e in chars] + [('r', e) for e in ranges]
        i = ch.pick(range(len(entries)))
        j = ch.pick([x for x in range(i, len(entries))])
        picked = sorted({i, j})
        use_c = [entries[x][1] for x in picked if entries[x][0] == 'c']
        use_r = [entries[x][1] for x in picked if entries[x][0] == 'r']
        layout = ch.dev([0, 1, 2], 'layout')
        m = mapping(use_c, use_r)
        stream = cmap(cs, use_c, use_r, layout)
        filt = ch.dev([None, '/FlateDecode'], 'filter')
        extra = {6: R.S({'/Filter': filt} if filt else {}, R.encode(stream, [filt]) if filt else stream)}
        if simple:
            font = {'/Type': '/Font', '/Subtype': '/TrueType', '/BaseFont': '/Abc', '/Encoding': ch.dev(['/WinAnsiEncoding', '/MacRomanEncoding', {'/BaseEncoding': '/WinAnsiEncoding'}]), '/ToUnicode': 6j}
            wd = 500
        else:
            font = {'/Type': '/Font', '/Subtype': '/Type0', '/BaseFont': '/Abc', '/Encoding': '/Identity-H', '/DescendantFonts': [7j], '/ToUnicode': 6j}
            extra[7] = {'/Type': '/Font', '/Subtype': '/CIDFontType2', '/BaseFont': '/Abc', '/DW': 700}
            wd = 700
        content = b'BT /F1 1000 Tf '
        want = []
        codes = sorted(m)
        nt = ch.pick(NOTATIONS)
        strings = [(a,) for a in codes] + [(a, b) for a in codes for b in codes]
        if length > 2:
            strings += [(a, b, c) for a in codes for b in codes for c in codes]
        for s in strings:
            content += token(b''.join(s), nt) + b' Tj '
            want.append((''.join(m[c] for c in s), wd * len(s)))
        content += b'[' + b' 0 '.join(token(c, nt) for c in codes) + b'] TJ ET'
        want.append((''.join(m[c] for c in codes), wd * len(codes)))
        ch.note((use_c, use_r, nt, simple))
        compare(page(font, content, extra, ch.dev((False, True), 'direct font')), content, want)
        ch.step(len(want))
        ch.state((repr(picked), repr(cs), simple, nt))
        ch.outcome(repr(want))
    return run


def h_widths():
    """Width tables of simple fonts."""
    def run(ch):
        first = ch.pick([0, 32, 65, 66, 255])
        n = ch.pick([1, 2, 3, 10])
        if first + n > 256:
            n = 256 - first
        table = [300 + 7 * k for k in range(n)]
        if ch.dev((False, True), 'real widths'):
            table = [x + .5 for x in table]
        missing = ch.pick([0, 250, 777])
        extra = {6: {'/Type': '/FontDescriptor', '/FontName': '/Abc', '/MissingWidth': missing}}
        if not missing:
            v = ch.dev([0, 'absent', None], 'default')
            if v is None:
                extra[6]['/MissingWidth'] = None
            elif v:
                del extra[6]['/MissingWidth']
        font = {'/Type': '/Font', '/Subtype': '/TrueType', '/BaseFont': '/Abc', '/Encoding': '/WinAnsiEncoding', '/FirstChar': first, '/LastChar': first + n - 1, '/Widths': list(table), '/FontDescriptor': 6j}
        how = ch.dev(['-', 'ref', 'element ref', 'first ref', 'direct descriptor', 'missing ref', 'no first', 'null descendants'], 'indirect')
        if how == 'no first' and not first:
            font['/FirstChar'] = None
        elif how == 'null descendants':
            font['/DescendantFonts'] = None
        elif how == 'ref':
            extra[7] = font['/Widths']
            font['/Widths'] = 7j
        elif how == 'element ref':
            extra[7] = table[-1]
            font['/Widths'] = table[:-1] + [7j]
        elif how == 'first ref':
            extra[7] = first
            font['/FirstChar'] = 7j
        elif how == 'direct descriptor':
            font['/FontDescriptor'] = extra.pop(6)
        elif how == 'missing ref':
            extra[7] = missing
            extra[6]['/MissingWidth'] = 7j
        codes = sorted({c for c in (0, 1, 31, 32, 33, 64, 65, 66, 67, 68, 74, 75, 76, 41, 42, 254, 255, first, first + n - 1, first + n, first - 1) if 0 <= c < 256})
        w = {c: table[c - first] if first <= c < first + n else missing for c in range(256)}
        content, want = b'BT /F1 1000 Tf ', []
        nt = ch.pick(NOTATIONS)
        for a in codes:
            content += token(bytes([a]), nt) + b' Tj '
            want.append((None, w[a]))
            for b in codes[::3]:
                content += token(bytes([a, b]), nt) + b' Tj '
                want.append((None, w[a] + w[b]))
        content += b'[' + token(bytes(codes[:3]), nt) + b'-120' + token(bytes(codes[3:5]), nt) + b' 50.5 ] TJ ET'
        want.append((None, sum(w[c] for c in codes[:5]) + 120 - 50.5))
        ch.note((first, table, missing, how, nt))
        compare(page(font, content, extra), content, want)
        ch.step(len(want))
        ch.state((first, n, missing, how, nt))
        ch.outcome(repr(want))
    return run


PIECES = [(1, [111, 222]), (3, 5, 333), (10, [444]), (20, 20, 555), (65, [1, 2, 3]), (256, 259, 666), (1000, [700, 0, 900]), (65534, 65535, 10)]


def h_cid():
    """Width arrays of CID fonts: any two or three pieces in any order."""
    def run(ch):
        n = ch.pick([0, 1, 2, 3])
        left = list(PIECES)
        arr, w = [], {}
        for _ in range(n):
            p = ch.pick(left)
            left = [x for x in left if x is not p]
            arr += p
            if isinstance(p[1], list):
                for k, x in enumerate(p[1]):
                    w[p[0] + k] = x
            else:
                for c in range(p[0], p[1] + 1):
                    w[c] = p[2]
        dw = ch.pick([None, 0, 600])
        extra = {}
        cid = {'/Type': '/Font', '/Subtype': '/CIDFontType2', '/BaseFont': '/Abc', '/CIDSystemInfo': {'/Registry': b'(Adobe)', '/Ordering': b'(Identity)', '/Supplement': 0}}
        if n or ch.dev((False, True), 'empty array'):
            cid['/W'] = arr
        if dw is not None:
            cid['/DW'] = dw
        elif ch.dev((False, True), 'null default'):
            cid['/DW'] = None
        how = ch.dev(['-', 'ref', 'descendants ref', 'dw ref', 'list ref', 'width ref', 'null array'], 'indirect')
        if how == 'ref' and '/W' in cid:
            extra[8] = cid['/W']
            cid['/W'] = 8j
        elif how == 'dw ref' and dw is not None:
            extra[8] = dw
            cid['/DW'] = 8j
        elif how == 'null array' and not n:
            cid['/W'] = None
        elif how == 'width ref' and any(isinstance(x, list) for x in arr):
            i = [k for k, x in enumerate(arr) if isinstance(x, list)][-1]
            extra[8] = arr[i][-1]
            cid['/W'] = arr[:i] + [arr[i][:-1] + [8j]] + arr[i + 1:]
        elif how == 'list ref' and any(isinstance(x, list) for x in arr):
            i = [k for k, x in enumerate(arr) if isinstance(x, list)][0]
            extra[8] = arr[i]
            cid['/W'] = arr[:i] + [8j] + arr[i + 1:]
        extra[7] = cid
        font = {'/Type': '/Font', '/Subtype': '/Type0', '/BaseFont': '/Abc', '/Encoding': '/Identity-H', '/DescendantFonts': [7j]}
        if how == 'descendants ref':
            extra[8] = [7j]
            font['/DescendantFonts'] = 8j
        with_map = ch.dev((True, False), 'ToUnicode')
        if with_map:
            font['/ToUnicode'] = 6j
            extra[6] = R.S({}, cmap([(b'\0\0', b'\xff\xff')], [(b'\0A', 'A')], []))
        d = 1000 if dw is None else dw
        codes = [0, 1, 2, 3, 5, 6, 10, 11, 19, 20, 21, 65, 67, 68, 255, 256, 257, 259, 260, 1000, 1001, 1002, 65533, 65534, 65535]
        content, want = b'BT /F1 1000 Tf ', []
        nt = ch.pick(NOTATIONS[:2])
        for a in codes:
            content += token(a.to_bytes(2, 'big'), nt) + b' Tj '
            want.append((None, w.get(a, d)))
        content += token(b''.join(a.to_bytes(2, 'big') for a in codes), nt) + b' Tj ET'
        want.append((None, sum(w.get(a, d) for a in codes)))
        ch.note((arr, dw, how, nt))
        compare(page(font, content, extra), content, want)
        ch.step(len(want))
        ch.state((repr(arr), dw, how))
        ch.outcome(repr(want))
    return run

def h_sizes(ch):
    """Many entries, many sections, long ranges, long targets, wide tables, long strings."""
    what = ch.pick(['chars', 'sections', 'ranges', 'long range', 'listed', 'target', 'widths', 'cid list', 'cid range', 'cid pieces', 'string', 'codespaces'])
    n = ch.pick([x for x in SIZES if x > 2] + [300, 513, 1000])
    two, simple = True, False
    chars, ranges = [], []
    if what in ('chars', 'sections'):
        chars = [((256 + 3 * i).to_bytes(2, 'big'), chr(0x4e00 + i)) for i in range(n)]
    elif what == 'ranges':
        ranges = [((4 * i).to_bytes(2, 'big'), (4 * i + 2).to_bytes(2, 'big'), chr(0x4e00 + 5 * i)) for i in range(n)]
    elif what == 'long range':
        if n > 256:
            raise Prune()
        a = ch.pick([0, 256 - n])
        two = ch.pick([True, False])
        ranges = [(bytes([7] * two + [a]), bytes([7] * two + [a + n - 1]), chr(0x4e00))]
    elif what == 'listed':
        if n > 256:
            raise Prune()
        ranges = [(b'\x05\x00', bytes([5, n - 1]), [chr(0x4e00 + 2 * i) * (1 + i % 3) for i in range(n)])]
    elif what == 'target':
        chars = [(b'\x00A', 'x' * n + '\U0001d11e'), (b'\x00B', '\u4e2d')]
    elif what == 'codespaces':
        if n > 120:
            raise Prune()
        chars = [(bytes([128 + i % 128, i]), chr(0x4e00 + i)) for i in range(n)] + [(b'A', 'a')]
    m = mapping(chars, ranges)
    content, want, extra = b'BT /F1 1000 Tf ', [], {}
    nt = ch.pick(NOTATIONS[:2])
    if what in ('widths', 'cid list', 'cid range', 'cid pieces', 'string'):
        if what == 'widths':
            if n > 256:
                raise Prune()
            first = ch.pick([0, 256 - n])
            table = [200 + 3 * i for i in range(n)]
            font = {'/Type': '/Font', '/Subtype': '/TrueType', '/BaseFont': '/Abc', '/Encoding': '/WinAnsiEncoding', '/FirstChar': first, '/LastChar': first + n - 1, '/Widths': table, '/FontDescriptor': 6j}
            extra[6] = {'/Type': '/FontDescriptor', '/FontName': '/Abc', '/MissingWidth': 77}
            w = {bytes([c]): table[c - first] if first <= c < first + n else 77 for c in range(256)}
        elif what == 'string':
            font = {'/Type': '/Font', '/Subtype': '/TrueType', '/BaseFont': '/Abc', '/Encoding': '/WinAnsiEncoding', '/FirstChar': 65, '/LastChar': 66, '/Widths': [100, 300]}
            for s in (b'A' * n, (b'AB' * n)[:n], b'B' + b'A' * (n - 1)):
                content += token(s, nt) + b' Tj '
                want.append((s.decode(), sum(100 if c == 65 else 300 for c in s)))
            content += b'[' + b' -10 '.join([token(b'A', nt)] * n) + b'] TJ '
            want.append(('A' * n, 100 * n + 10 * (n - 1)))
            w = {}
        else:
            if what == 'cid list':
                arr = [3, [100 + i for i in range(n)]]
                w = {c: 100 + c - 3 for c in range(3, 3 + n)}
            elif what == 'cid range':
                arr = [3, 2 + n, 250]
                w = {c: 250 for c in range(3, 3 + n)}
            else:
                arr, w = [], {}
                for i in range(n):
                    c = 5 * i + 1
                    if i % 2:
                        arr += [c, [300 + i, 2]]
                        w[c], w[c + 1] = 300 + i, 2
                    else:
                        arr += [c, c + 2, 400 + i]
                        w.update({c + k: 400 + i for k in range(3)})
            w = {c.to_bytes(2, 'big'): w.get(c, 55) for c in range(max(w) + 4)}
            extra[7] = {'/Type': '/Font', '/Subtype': '/CIDFontType2', '/BaseFont': '/Abc', '/W': arr, '/DW': 55}
            extra[6] = R.S({}, cmap([(b'\0\0', b'\xff\xff')], [(b'\0A', 'A')], []))
            font = {'/Type': '/Font', '/Subtype': '/Type0', '/BaseFont': '/Abc', '/Encoding': '/Identity-H', '/DescendantFonts': [7j], '/ToUnicode': 6j}
        keys = sorted(w)
        for c in keys if len(keys) < 300 else keys[:40] + keys[40:-40:7] + keys[-40:]:
            content += token(c, nt) + b' Tj '
            want.append((None, w[c]))
    else:
        cs = [(b'\0\0', b'\xff\xff')] if two else [(b'\0', b'\xff')]
        if what == 'codespaces':
            cs = [(b'\x00', b'\x7f')] + sorted({(bytes([c[0], 0]), bytes([c[0], 255])) for c, t in chars if len(c) == 2})
        stream = cmap(cs, chars if what != 'sections' else [], ranges)
        if what == 'sections':
            per = ch.pick([1, 10, 100])
            blocks = b''
            for i in range(0, n, per):
                part = chars[i:i + per]
                blocks += b'%d beginbfchar\n' % len(part) + b'\n'.join(b'<%s> <%s>' % (a.hex().encode(), t.encode('utf-16-be').hex().encode()) for a, t in part) + b'\nendbfchar\n'
            stream = stream.replace(b'endcmap', blocks + b'endcmap')
        extra[6] = R.S({}, stream)
        extra[7] = {'/Type': '/Font', '/Subtype': '/CIDFontType2', '/BaseFont': '/Abc', '/DW': 700}
        font = {'/Type': '/Font', '/Subtype': '/Type0', '/BaseFont': '/Abc', '/Encoding': '/Identity-H', '/DescendantFonts': [7j], '/ToUnicode': 6j}
        keys = sorted(m)
        for c in keys if len(keys) < 300 else keys[:40] + keys[40:-40:7] + keys[-40:]:
            content += token(c, nt) + b' Tj '
            want.append((m[c], 700))
        content += token(b''.join(keys), nt) + b' Tj '
        want.append((''.join(m[c] for c in keys), 700 * len(keys)))
    ch.note((what, n, nt))
    compare(page(font, content + b'ET', extra), content, want)
    ch.step(len(want))
    ch.state((what, n, nt, two))
    ch.outcome((what, n))


def harnesses(tier):
    t = tier == 'thorough'
    return [Harness('named encodings', h_named(), 1, 'every code of the named encodings'),
            Harness('ToUnicode', h_tounicode(3 if t else 2), 2 if t else 1, 'one and two byte codes, single, consecutive and listed targets'),
            Harness('simple widths', h_widths(), 2, 'width tables of simple fonts'),
            Harness('CID widths', h_cid(), 2, 'width arrays of CID fonts'),
            Harness('sizes', h_sizes, note='maps, ranges, sections, width tables and strings of up to 1000 entries')]


ASSUMPTIONS = ['encodings by /Differences, StandardEncoding and the codes the specification leaves undefined are not covered', 'codes without an entry in the ToUnicode map are not covered']
