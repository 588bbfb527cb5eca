"""C23: page text extraction returns every shown string at its place."""
import itertools
import pdfsyntax as pdf
from mc.engine import Harness, Prune
from mc import refpdf as R
from mc.common import expect

HOW = ['Td', 'Tm', 'cm', 'TD', 'T*', "'", '"', 'TJ', 'scaled Tm', 'hex', 'scaled cm', 'two Td', 'spaced', 'stretched', 'rise']


def show(how, x, y, t, size=12):
    """Commands (one list per command) that show text t at x, y."""
    s = b'(' + t.encode() + b')'
    f = b'/F1 %d Tf' % size
    pos = b'%d %d' % (x, y)
    up = b'%d %d' % (x, y + 20)
    if how == 'Td':
        return [b'BT', f, pos + b' Td', s + b' Tj', b'ET']
    if how == 'Tm':
        return [b'BT', f, b'1 0 0 1 ' + pos + b' Tm', s + b' Tj', b'ET']
    if how == 'cm':
        return [b'q', b'1 0 0 1 ' + pos + b' cm', b'BT', f, s + b' Tj', b'ET', b'Q']
    if how == 'TD':
        return [b'BT', f, pos + b' TD', s + b' Tj', b'ET']
    if how == 'T*':
        return [b'q', b'BT', f, b'20 TL', up + b' Td', b'T*', s + b' Tj', b'ET', b'Q']
    if how == "'":
        return [b'q', b'BT', f, b'20 TL', up + b' Td', s + b" '", b'ET', b'Q']
    if how == '"':
        return [b'q', b'BT', f, b'20 TL', up + b' Td', b'0 0 ' + s + b' "', b'ET', b'Q']
    if how == 'TJ':
        parts = b' -5 '.join(b'(' + c.encode() + b')' for c in t)
        return [b'BT', f, pos + b' Td', b'[' + parts + b'] TJ', b'ET']
    if how == 'scaled Tm':
        return [b'BT', b'/F1 1 Tf', b'%d 0 0 %d ' % (size, size) + pos + b' Tm', s + b' Tj', b'ET']
    if how == 'hex':
        return [b'BT', f, pos + b' Td', b'<' + t.encode().hex().encode() + b'> Tj', b'ET']
    if how == 'scaled cm':
        return [b'q', b'2 0 0 2 0 0 cm', b'BT', b'/F1 %s Tf' % (b'%d.%d' % (size // 2, size % 2 * 5)), b'%.1f %.1f Td' % (x / 2, y / 2), s + b' Tj', b'ET', b'Q']
    if how == 'two Td':
        return [b'BT', f, b'5 -5 Td', b'%d %d Td' % (x - 5, y + 5), s + b' Tj', b'ET']
    if how == 'spaced':
        return [b'q', b'1 Tc 2 Tw', b'BT', f, pos + b' Td', s + b' Tj', b'ET', b'Q']
    if how == 'stretched':
        return [b'q', b'80 Tz', b'BT', f, pos + b' Td', s + b' Tj', b'ET', b'Q']
    if how == 'rise':
        return [b'q', b'BT', f, b'3 Ts', b'%d %d Td' % (x, y - 3), s + b' Tj', b'ET', b'Q']
    raise AssertionError(how)


FONT = {'/Type': '/Font', '/Subtype': '/Type1', '/BaseFont': '/Helvetica', '/Encoding': '/WinAnsiEncoding'}
PLACES = ['own', 'own ref', 'inherited', 'inherited ref', 'font dict ref', 'no font', 'no resources', 'direct font', 'null resources', 'two fonts', 'grandparent']
CONTENTS = ['ref', 'array', 'array ref', 'split', 'split everywhere', 'flate', 'empty first', 'with null', 'with dangling', 'hex filter', 'long length']


def file(commands, place='own', contents='ref', cut=1, fonts=None):
    """A two-page file: page 1 shows `commands` (page 0 shows something else)."""
    o = {1: {'/Type': '/Catalog', '/Pages': 2j}, 2: {'/Type': '/Pages', '/Kids': [3j, 8j], '/Count': 2},
         3: {'/Type': '/Page', '/Parent': 2j, '/MediaBox': [0, 0, 600, 800], '/Contents': 7j, '/Resources': {'/Font': {'/F1': 4j}}},
         4: dict(FONT), 5: {'/Type': '/Page', '/Parent': 8j, '/MediaBox': [0, 0, 600, 800]},
         7: R.S({}, b'BT /F1 9 Tf 1 0 0 1 50 50 Tm (other) Tj ET q 3 0 0 3 0 0 cm'), 8: {'/Type': '/Pages', '/Parent': 2j, '/Kids': [5j], '/Count': 1}}
    p = o[5]
    res = {'/Font': {'/F1': 4j}}
    if place == 'own':
        p['/Resources'] = res
    elif place == 'own ref':
        o[9], p['/Resources'] = res, 9j
    elif place == 'inherited':
        o[8]['/Resources'] = res
    elif place == 'inherited ref':
        o[9], o[8]['/Resources'] = res, 9j
    elif place == 'font dict ref':
        o[9], p['/Resources'] = res['/Font'], {'/Font': 9j}
    elif place == 'no font':
        p['/Resources'] = {'/ProcSet': ['/PDF']}
    elif place == 'direct font':
        p['/Resources'] = {'/Font': {'/F1': dict(FONT)}}
    elif place == 'null resources':
        p['/Resources'] = 'null'
        o[8]['/Resources'] = res
    elif place == 'two fonts':
        p['/Resources'] = {'/Font': {'/F0': {**FONT, '/Encoding': '/MacRomanEncoding'}, '/F1': 4j}}
    elif place == 'grandparent':
        o[2]['/Resources'] = res
    for n, v in (fonts or {}).items():
        o[n] = v
        res['/Font']['/F9'] = 30j
    nxt = [50]

    def new(v):
        nxt[0] += 1
        o[nxt[0]] = v
        return complex(0, nxt[0])
    sep = b'\n'
    whole = sep.join(commands)
    if contents == 'ref':
        p['/Contents'] = new(R.S({}, whole))
    elif contents == 'array':
        p['/Contents'] = [new(R.S({}, whole))]
    elif contents == 'array ref':
        p['/Contents'] = new([new(R.S({}, whole))])
    elif contents == 'split':
        p['/Contents'] = [new(R.S({}, sep.join(commands[:cut]))), new(R.S({}, sep.join(commands[cut:])))]
    elif contents == 'split everywhere':
        p['/Contents'] = [new(R.S({}, c)) for c in commands]
    elif contents == 'flate':
        p['/Contents'] = [new(R.S({'/Filter': '/FlateDecode'}, R.encode(whole, ['/FlateDecode'])))]
    elif contents == 'hex filter':
        p['/Contents'] = [new(R.S({'/Filter': ['/ASCIIHexDecode']}, R.encode(whole, ['/ASCIIHexDecode'])))]
    elif contents == 'empty first':
        p['/Contents'] = [new(R.S({}, b'')), new(R.S({}, whole)), new(R.S({}, b''))]
    elif contents == 'with null':
        p['/Contents'] = ['null', new(R.S({}, whole)), new(None)]
    elif contents == 'with dangling':
        p['/Contents'] = [complex(0, 90), new(R.S({}, whole)), complex(0, 900)]
    elif contents == 'long length':
        p['/Contents'] = [new(R.S({}, b'% padding ' + b'x' * 5000 + b'\n' + whole))]
    elif contents == 'absent':
        pass
    elif contents == 'null':
        p['/Contents'] = 'null'
    elif contents == 'empty array':
        p['/Contents'] = []
    return R.build([R.Rev(o)])[0]


def lines(items):
    """Expected lines: items (x, y, text) grouped by baseline, top to bottom, left to right."""
    out = []
    for y in sorted({y for x, y, t in items}, reverse=True):
        s = ''.join(t for x, yy, t in sorted(i for i in items if i[1] == y) if t.strip())
        out.append(''.join(s.split()))
    return [s for s in out if s]


def check(data, items):
    doc = pdf.loads(data)
    want = lines(items)
    for again in range(2):
        got = pdf.extract_page_text(doc, 1)
        expect(isinstance(got, str), f'{got!r} instead of a text')
        seen = [''.join(l.split()) for l in got.split('\n') if l.strip()]
        expect(seen == want, lambda: f'text {got!r} has the lines {seen!r}, expected {want!r}')
        expect(pdf.extract_page_text(doc, 0).split() == ['other'], lambda: f'the other page gives {pdf.extract_page_text(doc, 0)!r}')
    return want


XS = [20, 200, 400]
YS = [700, 680, 660, 300]
TEXTS = ['AB', 'C', 'DEF', 'Gh i', 'jklm', 'N(o)'.replace('(', '').replace(')', ''), 'pq', 'R']


def h_positions(n, hows, nx=2, ny=2):
    """Every placement of n strings on a grid, in every order, each shown in every way."""
    def run(ch):
        slots = [(x, y) for y in YS[:ny] for x in XS[:nx]]
        items, cmds = [], []
        k = ch.pick(range(1, n + 1))
        for i in range(k):
            x, y = ch.pick(slots)
            slots = [s for s in slots if s != (x, y)]
            t = TEXTS[i]
            how = ch.pick(hows) if i < 1 or len(hows) < 4 else ch.dev(hows)
            items.append((x, y, t))
            cmds += show(how, x, y, t)
            ch.note((how, x, y, t))
        want = check(file(cmds), items)
        ch.step()
        ch.state(repr(cmds))
        ch.outcome(repr(want))
    return run


def h_attach(full):
    """Every way to attach fonts and contents, the stream being cut anywhere."""
    def run(ch):
        items = [(20, 700, 'AB'), (200, 700, 'CD'), (20, 650, 'EF')]
        order = ch.pick(list(itertools.permutations(range(3)))[::1 if full else 2])
        hows = [ch.pick(['Td', 'cm']), ch.pick(['Td', "'"]), 'scaled Tm']
        cmds = []
        for i in order:
            x, y, t = items[i]
            cmds += show(hows[i], x, y, t)
        place = ch.pick(PLACES)
        contents = ch.pick(CONTENTS)
        cut = ch.pick(range(len(cmds) + 1)) if contents == 'split' else 1
        ch.note((place, contents, cut, cmds))
        want = check(file(cmds, place, contents, cut), items)
        ch.step()
        ch.state((place, contents, cut, repr(cmds)))
        ch.outcome(repr(want))
    return run


def h_nothing():
    """Pages with little or nothing to show."""
    def run(ch):
        place = ch.pick(PLACES)
        what = ch.pick(['absent', 'null', 'empty array', 'empty stream', 'no text', 'blank', 'empty string', 'one char', 'single chars', 'blank and text', 'no Tf', 'zero size', 'unknown font', 'bt only', 'empty TJ', 'number TJ'])
        items = []
        cmds = []
        cont = what if what in ('absent', 'null', 'empty array') else ch.pick(CONTENTS[:4])
        if what == 'empty stream':
            cmds = [b'']
        elif what == 'no text':
            cmds = [b'q 1 0 0 1 5 5 cm', b'0 0 m 10 10 l S', b'/Im0 Do', b'Q']
        elif what == 'blank':
            cmds = show('Td', 20, 700, ' ') + show('Td', 20, 600, '   ')
        elif what == 'empty string':
            cmds = show('Td', 20, 700, '') + [b'BT [] TJ ET']
        elif what == 'one char':
            cmds, items = show('Td', 20, 700, 'A'), [(20, 700, 'A')]
        elif what == 'single chars':
            items = [(20, 700, 'A'), (300, 700, 'B'), (20, 600, 'C')]
            cmds = [c for i in items for c in show('Td', *i)]
        elif what == 'blank and text':
            items = [(20, 700, 'A'), (200, 650, 'B')]
            cmds = show('Td', 20, 720, ' ') + show('Td', 20, 700, 'A') + show('Td', 60, 700, ' ') + show('Td', 200, 650, 'B')
        elif what == 'no Tf':
            cmds, items = [b'BT', b'20 700 Td', b'(AB) Tj', b'0 -50 Td', b'(CD) Tj', b'ET'], [(20, 700, 'AB'), (20, 650, 'CD')]
        elif what == 'zero size':
            cmds, items = [b'BT', b'/F1 0 Tf', b'20 700 Td', b'(AB) Tj', b'ET'], [(20, 700, 'AB')]
        elif what == 'unknown font':
            cmds, items = [b'BT', b'/Fx 12 Tf', b'20 700 Td', b'(AB) Tj', b'ET'], [(20, 700, 'AB')]
        elif what == 'bt only':
            cmds = [b'BT', b'ET']
        elif what == 'empty TJ':
            cmds, items = [b'BT', b'/F1 12 Tf', b'20 700 Td', b'[() 5 ()] TJ', b'0 -50 Td', b'[(X)] TJ', b'ET'], [(20, 650, 'X')]
        elif what == 'number TJ':
            cmds = [b'BT', b'/F1 12 Tf', b'20 700 Td', b'[-50] TJ', b'ET']
        ch.note((place, what, cont))
        want = check(file(cmds, place, cont), items)
        ch.step()
        ch.state((place, what, cont))
        ch.outcome(repr(want))
    return run


def h_flow(depth):
    """Strings one after the other inside one text object, moved by any sequence of operators."""
    ops = ['Tj', 'TJ', 'next line', "'", '"', 'right', 'Tm up', 'font', 'q']

    def run(ch):
        cmds = [b'BT', b'/F1 12 Tf', b'20 TL', b'100 700 Td']
        x0, y = 100, 700
        x = 100.0
        items = []
        size = 12
        names = iter(['AB', 'C', 'DE', 'F', 'GH', 'IJ', 'K', 'LM'])
        n = 0
        for k in range(depth):
            op = ch.pick(ops[:-1])
            n += 1
            if op in ('Tj', 'TJ', "'", '"'):
                t = next(names)
                if op in ("'", '"'):
                    y -= 20
                    x = x0
                if op == 'TJ':
                    cmds.append(b'[(%s) 0 (%s)] TJ' % (t[:1].encode(), t[1:].encode()))
                elif op == '"':
                    cmds.append(b'0 0 (%s) "' % t.encode())
                else:
                    cmds.append(b'(%s) %s' % (t.encode(), op.encode()))
                items.append((x, y, t))
                x += len(t) * size * .5
            elif op == 'next line':
                cmds.append(b'T*')
                y -= 20
                x = x0
            elif op == 'right':
                cmds.append(b'150 0 Td')
                x0 += 150
                x = x0
            elif op == 'Tm up':
                y = 800 + n * 30
                x0 = x = 50
                cmds.append(b'1 0 0 1 %d %d Tm' % (x, y))
            elif op == 'font':
                cmds.append(b'/F1 10 Tf')
                size = 10
        cmds.append(b'ET')
        ch.note(cmds)
        # strings may only follow each other on a line when they do not start before the end of an earlier one
        spans = {}
        for xx, yy, t in items:
            for a, b in spans.get(yy, []):
                if xx < b and a < xx + 5 * len(t):
                    raise Prune()
            spans.setdefault(yy, []).append((xx, xx + 6 * len(t) - 1))
        want = check(file(cmds), items)
        ch.step(depth)
        ch.state(repr(cmds))
        ch.outcome(repr(want))
    return run


def h_spacing():
    """Many lines with any spacing, drawn in any order."""
    def run(ch):
        n = ch.pick([2, 3, 4, 5])
        gaps = [ch.pick([12, 14, 30, 100]) for _ in range(n - 1)]
        ys = [700]
        for g in gaps:
            ys.append(ys[-1] - g)
        order = ch.pick(['down', 'up', 'odd'])
        idx = list(range(n))
        if order == 'up':
            idx.reverse()
        elif order == 'odd':
            idx = idx[1::2] + idx[::2]
        xs = ch.pick(['same', 'indent', 'columns'])
        items = []
        for i in range(n):
            items.append(((20 if xs == 'same' else 20 + 15 * i), ys[i], TEXTS[i]))
            if xs == 'columns':
                items.append((300, ys[i], TEXTS[i].lower() + 'z'))
        cmds = []
        for i in idx:
            for it in items:
                if it[1] == ys[i]:
                    cmds += show('Tm', *it)
        ch.note((ys, order, xs))
        want = check(file(cmds), items)
        ch.step()
        ch.state((repr(items), order))
        ch.outcome(repr(want))
    return run

def h_sizes(ch):
    """Many lines, many strings on a line, long strings, many streams, many fonts."""
    what = ch.pick(['lines', 'row', 'grid', 'string', 'streams', 'object', 'TJ'])
    n = ch.pick([9, 10, 11, 16, 17, 31, 32, 33, 50, 64, 65, 99, 100, 101, 128, 129] + ([256, 257, 1000] if what in ('string', 'TJ', 'streams') else []))
    order = ch.pick(['down', 'up', 'odd', 'mixed']) if what not in ('string', 'object', 'TJ') else 'down'
    how = ch.pick(['Td', 'Tm', 'cm', "'", 'scaled Tm', 'TJ']) if what in ('lines', 'row', 'grid') else 'Td'
    items, contents = [], 'ref'
    if what in ('lines', 'streams'):
        items = [(20 + 10 * (i % 3), 20 * n - 20 * i, 'L%dx' % i) for i in range(n)]
        contents = 'split everywhere' if what == 'streams' else 'ref'
    elif what == 'row':
        items = [(20 + 60 * i, 700, 'W%d' % i) for i in range(n)]
    elif what == 'grid':
        k = max(1, n // 4)
        items = [(20 + 150 * (i % 4), 20 * k - 20 * (i // 4), 'G%d' % i) for i in range(4 * k)]
    elif what == 'string':
        items = [(20, 700, 'S' * n), (20, 680, ('word ' * n)[:n]), (20, 660, 'E')]
    elif what == 'TJ':
        items = [(20, 700, 'ab' * n), (20, 680, 'E')]
    cmds = []
    seq = list(range(len(items)))
    if order == 'up':
        seq.reverse()
    elif order == 'odd':
        seq = seq[1::2] + seq[::2]
    elif order == 'mixed':
        seq = [seq[i * 7 % len(seq)] for i in range(len(seq))] if len(seq) % 7 else seq[len(seq) // 2:] + seq[:len(seq) // 2]
    if what == 'object':            # one text object with n strings
        cmds = [b'BT', b'/F1 12 Tf', b'14 TL', b'20 %d Td' % (14 * n)]
        for i in range(n):
            cmds += [b'(O%d) Tj' % i, b'T*']
            items.append((20, 14 * n - 14 * i, 'O%d' % i))
        cmds.append(b'ET')
    elif what == 'TJ':
        cmds = [b'BT', b'/F1 12 Tf', b'20 700 Td', b'[' + b'(a) -5 (b) 5' * n + b'] TJ', b'ET'] + show('Td', 20, 680, 'E')
    else:
        for i in seq:
            cmds += show(how, *items[i])
    ch.note((what, n, order, how))
    want = check(file(cmds, 'own', contents), items)
    ch.step()
    ch.state((what, n, order, how))
    ch.outcome((what, len(want)))


def cmap(spaces, chars):
    return R.S({}, b'/CIDInit /ProcSet findresource begin begincmap %d begincodespacerange %s endcodespacerange %d beginbfchar %s endbfchar endcmap end' % (
        len(spaces), b' '.join(b'<%s> <%s>' % x for x in spaces), len(chars), b' '.join(b'<%s> <%04x>' % (c, ord(t)) for c, t in chars)))


def font_kinds():
    """name -> (objects of font 30, bytes of the shown string, its text, [(width, is a one-byte code 32)])."""
    t1 = {'/Type': '/Font', '/Subtype': '/Type1', '/BaseFont': '/Helvetica', '/Encoding': '/WinAnsiEncoding'}
    w = [250, 300, 400, 500, 900]
    out = {'standard': ({30: t1}, b'a b c', 'a b c', [(500, 0), (500, 1), (500, 0), (500, 1), (500, 0)])}
    got = [(700, 0), (1200, 1), (100, 0), (1200, 1), (300, 0)]
    row = [1200] + [50] * 64 + [700, 100, 300]
    out['widths'] = ({30: {**t1, '/FirstChar': 32, '/LastChar': 99, '/Widths': row}}, b'a b c', 'a b c', got)
    out['indirect widths'] = ({30: {**t1, '/FirstChar': 33j, '/LastChar': 99, '/Widths': 31j}, 31: [34j] + row[1:], 33: 32, 34: 1200}, b'a b c', 'a b c', got)
    out['missing width'] = ({30: {**t1, '/FirstChar': 98, '/LastChar': 98, '/Widths': [100], '/FontDescriptor': 31j}, 31: {'/Type': '/FontDescriptor', '/MissingWidth': 1500}},
                            b'a b c', 'a b c', [(1500, 0), (1500, 1), (100, 0), (1500, 1), (1500, 0)])
    out['simple, mapped'] = ({30: {**t1, '/FirstChar': 32, '/LastChar': 99, '/Widths': row, '/ToUnicode': 31j}, 31: cmap([(b'00', b'ff')], [(b'20', 'x'), (b'61', ' '), (b'62', 'y'), (b'63', 'z')])},
                             b'a b c', ' xyxz', got)
    t0 = {'/Type': '/Font', '/Subtype': '/Type0', '/BaseFont': '/C', '/Encoding': '/Identity-H', '/DescendantFonts': [31j], '/ToUnicode': 32j}
    cid = {'/Type': '/Font', '/Subtype': '/CIDFontType2', '/BaseFont': '/C', '/DW': 600, '/W': [3, [1500, 200], 32, 40, 800, 300, [100]]}
    two = cmap([(b'0000', b'ffff')], [(b'0020', 'x'), (b'0003', ' '), (b'0021', 'y'), (b'0100', 'z'), (b'012c', 'w')])
    s2 = bytes.fromhex('00200003002101000020012c')
    g2 = [(800, 0), (1500, 0), (800, 0), (600, 0), (800, 0), (100, 0)]
    out['two bytes'] = ({30: t0, 31: cid, 32: two}, s2, 'x yzxw', g2)
    out['two bytes, indirect'] = ({30: {**t0, '/DescendantFonts': 33j}, 31: {**cid, '/DW': 34j, '/W': 35j}, 32: two, 33: [31j], 34: 600, 35: [3, 36j, 32, 40, 37j, 300, [100]], 36: [1500, 200], 37: 800}, s2, 'x yzxw', g2)
    out['two bytes, default widths'] = ({30: t0, 31: {k: v for k, v in cid.items() if k not in ('/W', '/DW')}, 32: two}, s2, 'x yzxw', [(1000, 0)] * 6)
    out['composite, one byte'] = ({30: t0, 31: {**cid, '/W': [32, [1200], 97, [700, 100, 300]]}, 32: cmap([(b'00', b'ff')], [(b'20', ' '), (b'61', 'x'), (b'62', 'y'), (b'63', 'z')])}, b'a b c', 'x y z', got)
    out['composite, mixed'] = ({30: t0, 31: {**cid, '/W': [32, [1200], 97, [700, 100, 300], 0x8020, [900]]}, 32: cmap([(b'00', b'7f'), (b'8000', b'ffff')], [(b'20', ' '), (b'61', 'x'), (b'8020', 'y')])}, b'a \x80\x20a', 'x yx',
                               [(700, 0), (1200, 1), (900, 0), (700, 0)])
    return out


FONTS = font_kinds()


def h_advance(ch):
    """A string shown after another string, between which or after which a third one is placed by coordinates."""
    kind = ch.pick(sorted(FONTS))
    fonts, s, text, codes = FONTS[kind]
    tc, tw, tz = ch.pick([0, 8, -2]), ch.pick([0, 25]), ch.pick([100, 50, 200])
    adjust = ch.pick([[], [-3000], [2000, -2500]])
    size, how = ch.pick([(12, 'Tf'), (10, 'Tf'), (12, 'Tm'), (6, 'cm')])
    op = ch.pick(['Tj', 'TJ', "'", '"'])
    if op in ("'", '"') and how == 'Tm' and tz != 100:
        raise Prune()
    side = ch.pick([-1, 1])
    first = ch.pick([0, 1])
    hexed = b'<' + s.hex().encode() + b'>'
    scale = {'Tf': 1, 'Tm': 12, 'cm': 2}[how]
    tf = 1 if how == 'Tm' else size
    if how == 'Tm':
        tc, tw = tc / 10, tw / 10
    width = 0
    for w, space in codes:
        width += (w / 1000 * tf + tc + (tw if space else 0)) * tz / 100
    gap = 3 * 12 / (scale * tf * tz / 100)       # 36 units
    for a in adjust + [-gap * 1000]:
        width -= a / 1000 * tf * tz / 100
    x0, y = 60, 700
    end = x0 + width * scale
    cmds = [b'q', b'%g Tc' % tc, b'%g Tw' % tw, b'%d Tz' % tz]
    up = 0
    if op in ("'", '"'):
        cmds.append(b'%g TL' % (20 / scale))
        up = 20
    if how == 'cm':
        cmds += [b'2 0 0 2 0 0 cm', b'BT', b'/F9 %d Tf' % size, b'%g %g Td' % (x0 / 2, (y + up) / 2)]
    elif how == 'Tm':
        cmds += [b'BT', b'/F9 1 Tf', b'12 0 0 12 %d %d Tm' % (x0, y + up)]
    else:
        cmds += [b'BT', b'/F9 %d Tf' % size, b'%d %d Td' % (x0, y + up)]
    adj = b' '.join(b'%d' % a for a in adjust)
    if op == 'TJ':
        cmds.append(b'[%s %s %g] TJ' % (hexed, adj, -gap * 1000))
    else:
        cmds.append((b'%g %g ' % (tw, tc) if op == '"' else b'') + hexed + b' ' + op.encode())
        cmds.append(b'[%s %g] TJ' % (adj, -gap * 1000))
    cmds += [b'/F1 %d Tf' % tf, b'(Q) Tj', b'ET', b'Q']
    px = end + 13 * side
    p = [b'BT', b'/F1 12 Tf', b'1 0 0 1 %.3f %d Tm' % (px, y), b'(P) Tj', b'ET']
    ch.note((kind, tc, tw, tz, adjust, how, size, op, side, first))
    check(file(p + cmds if first else cmds + p, fonts=fonts), [(x0, y, text), (end, y, 'Q'), (px, y, 'P')])
    ch.step()
    ch.state((kind, tc, tw, tz, repr(adjust), how, size, op, side, first))
    ch.outcome((kind, side))


def h_close(ch):
    """Short strings that nearly touch, drawn in any order."""
    n = ch.pick([2, 3, 4])
    gap = ch.pick([6.1, 6.5, 7, 9.9, 12.4])
    x0 = ch.pick([20, 20.5, 93.7, 100])
    order = ch.pick(list(itertools.permutations(range(n))))
    y = ch.pick([700, 33.4])
    how = ch.pick(['Tm', 'cm', 'Td'])
    items = [(x0 + gap * i, y, 'ABCD'[i]) for i in range(n)]
    cmds = []
    for i in order:
        x, _, t = items[i]
        if how == 'cm':
            cmds += [b'q', b'1 0 0 1 %.2f %.2f cm' % (x, y), b'BT', b'/F1 12 Tf', b'(%s) Tj' % t.encode(), b'ET', b'Q']
        else:
            cmds += [b'BT', b'/F1 12 Tf', (b'1 0 0 1 %.2f %.2f Tm' if how == 'Tm' else b'%.2f %.2f Td') % (x, y), b'(%s) Tj' % t.encode(), b'ET']
    ch.note((n, gap, x0, order, y, how))
    check(file(cmds), items)
    ch.step()
    ch.state((n, gap, x0, order, y, how))
    ch.outcome(n)


def h_chain(ch):
    """Strings slightly below one another: those farther apart than the size of the font are on different lines, the upper one first."""
    ys, total = [700], 0
    for _ in range(ch.pick([2, 3])):
        total += ch.pick([3, 5, 8, 10, 11, 12, 20])
        ys.append(700 - total)
    size = ch.pick([10, 12])
    xs = ch.pick([[100 + 60 * i for i in range(4)], [300 - 60 * i for i in range(4)], [100, 220, 160, 280]])[:len(ys)]
    order = ch.pick(list(itertools.permutations(range(len(ys)))))
    if total < size:
        raise Prune()
    texts = ['AB', 'CD', 'EF', 'GH'][:len(ys)]
    cmds = []
    for i in order:
        cmds += show('Td', xs[i], ys[i], texts[i], size)
    ch.note((ys, xs, size, order))
    got = pdf.extract_page_text(pdf.loads(file(cmds)), 1)
    seen = {t: [(k, l.index(t)) for k, l in enumerate(got.split('\n')) if t in l] for t in texts}
    expect(sorted(''.join(got.split())) == sorted(''.join(texts)) and all(len(v) == 1 for v in seen.values()), lambda: f'{got!r} does not show each of {texts} once')
    for (a, ya), (b, yb) in itertools.combinations(zip(texts, ys), 2):
        if ya - yb >= size:
            expect(seen[a][0][0] < seen[b][0][0], lambda: f'{got!r}: {a} at {ya} must be on a line above {b} at {yb} (font size {size})')
    for l in range(got.count('\n') + 1):
        row = sorted((seen[t][0][1], x) for t, x in zip(texts, xs) if seen[t][0][0] == l)
        expect([x for _, x in row] == sorted(x for _, x in row), lambda: f'{got!r}: a line is not ordered from left to right')
    ch.step()
    ch.state((tuple(ys), tuple(xs), size, order))
    ch.outcome(got)


def harnesses(tier):
    t = tier == 'thorough'
    return [Harness('positions', h_positions(4 if t else 3, HOW, 3 if t else 2, 3 if t else 2), 2 if t else 1, 'strings on a grid, every order and every way to place them'),
            Harness('attachment', h_attach(t), 0, 'fonts, resources and contents attached in every way'),
            Harness('little text', h_nothing(), 0, 'pages with nothing or little to show'),
            Harness('flow', h_flow(6 if t else 5), 0, 'text objects with several strings'),
            Harness('spacing', h_spacing(), 0, 'lines with any spacing'),
            Harness('advance', h_advance, 0, 'a string placed by the widths, spacings and scaling of what is shown before it, for every kind of font'),
            Harness('close', h_close, 0, 'strings that nearly touch'),
            Harness('chain', h_chain, 0, 'strings slightly below one another, in any order'),
            Harness('sizes', h_sizes, note='up to 129 lines, 129 strings on a line, strings of 1000 characters, 1000 content streams')]


ASSUMPTIONS = ['strings shown by the page\'s own content streams (form XObjects are not interpreted by the library)', 'horizontal writing', 'strings of one line share their baseline and do not overlap; lines are at least a font size apart']
