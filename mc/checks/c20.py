"""C20: text strings and document metadata decode to the right Unicode text."""
import pdfsyntax as pdf
from mc.engine import Harness, Prune
from mc import refpdf as R, strings, model as M
from mc.common import expect, write, LONG

LIT = [b'a', b'8', b'1', b'0', b' ', b'()', b'(a)', b'\\n', b'\\r', b'\\t', b'\\b', b'\\f', b'\\\\', b'\\(', b'\\)', b'\\1', b'\\12', b'\\101', b'\\0', b'\\060',
       b'\\377', b'\\400', b'\\8', b'\\q', b'\\\n', b'\\\r\n', b'\\\r', b'\n', b'\r', b'\r\n', b'\x80', b'\xfe', b'\xff', b'\\376\\377', b'\x00', b'\xe9', b'\x18', b'%', b'<', b'/']
TEXT = ['a', 'é', '€', '\U0001d11e', '\n', '\r', '(', ')', '\\', '\x00', 'Ċ', '中', '\u2028', '1', '\u0d0a', '\u5c28', '\u2829', '\ufeff', 'Ā', '\ud7ff', '\uffff']


def one(tok):
    got = pdf.text_string(tok)
    return got


def check(tok, want):
    got = pdf.text_string(tok)
    expect(got == want, lambda: f'{tok!r} read as {got!r}, expected {want!r}')
    v = pdf.parse_obj(b'[' + tok + b']')
    expect(v == [tok] and pdf.text_string(v[0]) == want, lambda: f'[{tok!r}] parsed as {v!r}')


def defined(b):
    """Only byte strings that denote a text: no undefined PDFDocEncoding code, whole valid UTF-16."""
    if b[:2] == b'\xfe\xff':
        if len(b) % 2:
            raise Prune()
        try:
            b[2:].decode('utf-16-be')
        except UnicodeDecodeError:
            raise Prune()
    elif b[:3] == b'\xef\xbb\xbf' or any(c in strings.UNDEFINED for c in b):
        raise Prune()


def h_literal(length, alphabet):
    def run(ch):
        n = ch.pick(range(length + 1))
        s = b'(' + b''.join(ch.pick(alphabet) for _ in range(n)) + b')'
        defined(strings.string_bytes(s))
        want = strings.text(s)
        ch.note(s)
        check(s, want)
        ch.step()
        ch.state(s)
        ch.outcome(want)
    return run


def h_byte():
    """Every byte value in every notation; every pair with a following digit."""
    def run(ch):
        c = ch.pick(range(256))
        if c in strings.UNDEFINED:
            raise Prune()
        after = ch.pick([b'', b'1', b'9', b'a', b'\\)', b'\n'])
        how = ch.pick(['raw', 'octal3', 'octal', 'hex', 'HEX', 'utf16 hex', 'utf16 octal', 'utf16 raw'])
        if how == 'raw':
            if c in b'()\\\r':
                raise Prune()
            s = b'(' + bytes([c]) + after + b')'
        elif how == 'octal3':
            s = b'(\\%03o' % c + after + b')'
        elif how == 'octal':
            if after[:1].isdigit() and after != b'9' and len('%o' % c) < 3:
                raise Prune()
            s = b'(\\%o' % c + after + b')'
        elif how == 'hex':
            s = b'<%02x' % c + after.hex().encode() + b'>'
        elif how == 'HEX':
            s = b'<%02X ' % c + after.hex().upper().encode() + b'\n>'
        elif how == 'utf16 hex':
            s = b'<FEFF00%02x' % c + b'>'
        elif how == 'utf16 octal':
            s = b'(\\376\\377\\000\\%03o)' % c
        else:
            if c in b'()\\\r':
                raise Prune()
            s = b'(\xfe\xff\x00' + bytes([c]) + b')'
        b = strings.string_bytes(s)
        defined(b)
        ch.note(s)
        check(s, strings.text(s))
        ch.step()
        ch.state(s)
        ch.outcome(strings.text(s))
    return run


def h_utf16(length, alphabet):
    """Texts in UTF-16BE, each byte written in any notation."""
    def run(ch):
        n = ch.pick(range(length + 1))
        t = ''.join(ch.pick(alphabet) for _ in range(n))
        b = b'\xfe\xff' + t.encode('utf-16-be')
        how = ch.pick(['hex', 'lower', 'odd', 'literal', 'octal', 'mixed'])
        if how == 'hex':
            s = b'<' + b.hex().upper().encode() + b'>'
        elif how == 'lower':
            h = b.hex().encode()
            s = b'< ' + b'\r\n'.join(h[i:i + 3] for i in range(0, len(h), 3)) + b'\t>'
        elif how == 'odd':
            h = b.hex().encode()
            if not h.endswith(b'0'):
                raise Prune()
            s = b'<' + h[:-1] + b'>'
        elif how == 'octal':
            s = b'(' + b''.join(b'\\%03o' % c for c in b) + b')'
        else:
            out = []
            for i, c in enumerate(b):
                c = bytes([c])
                if c in (b'(', b')', b'\\'):
                    out.append(b'\\' + c)
                elif c == b'\r':
                    out.append(b'\\r' if how == 'literal' else b'\\015')
                elif c == b'\n' and how == 'mixed':
                    out.append(b'\\n')
                else:
                    out.append(c)
                if how == 'mixed':
                    out.append(b'\\\n' if i % 3 == 0 else b'\\\r\n' if i % 3 == 1 else b'')
            s = b'(' + b''.join(out) + b')'
        expect(strings.text(s) == t, 'reference')
        ch.note(s)
        check(s, t)
        ch.step()
        ch.state(s)
        ch.outcome(t)
    return run


HEX = [b'4', b'1', b'a', b'F', b' ', b'\n', b'\r\n', b'\x00', b'fE', b'ff', b'e9', b'00', b'\t', b'\x0c']


def h_hex(length):
    def run(ch):
        n = ch.pick(range(length + 1))
        s = b'<' + b''.join(ch.pick(HEX) for _ in range(n)) + b'>'
        defined(strings.string_bytes(s))
        ch.note(s)
        check(s, strings.text(s))
        ch.step()
        ch.state(s)
        ch.outcome(strings.text(s))
    return run


ENTRIES = ['/Title', '/Author', '/Subject', '/Keywords', '/Creator', '/Producer', '/CreationDate', '/ModDate']
VALUES = ['absent', 'literal', 'escaped', 'utf16', 'hex pdfdoc', 'indirect', 'indirect utf16', 'null', 'dangling', 'ref null', 'empty']


def entry(objs, kind, k):
    """(value put in the dictionary or None, text expected)."""
    def ref(v):
        n = max(objs) + 1
        objs[n] = v
        return complex(0, n)
    if kind == 'absent':
        return None, None
    if kind == 'literal':
        return b'(text %d)' % k, f'text {k}'
    if kind == 'escaped':
        return b'(a\\(b\\)\\\\\\n\\351 %d (n))' % k, f'a(b)\\\n\xe9 {k} (n)'
    if kind == 'utf16':
        return b'<FEFF4E2D00%02X>' % (65 + k), '中' + chr(65 + k)
    if kind == 'hex pdfdoc':
        return b'<A0 80 %02x>' % (65 + k), '€•' + chr(65 + k)
    if kind == 'indirect':
        return ref(b'(indirect %d)' % k), f'indirect {k}'
    if kind == 'indirect utf16':
        return ref(b'(\xfe\xff\x20\xac\x00' + bytes([65 + k]) + b')'), '€' + chr(65 + k)
    if kind == 'null':
        return 'null', None
    if kind == 'dangling':
        return complex(0, 400), None
    if kind == 'ref null':
        return ref('null'), None
    return b'()', ''


def h_metadata(bound2):
    def run(ch):
        objs = {1: {'/Type': '/Catalog', '/Pages': 2j}, 2: {'/Type': '/Pages', '/Kids': [3j], '/Count': 1}, 3: {'/Type': '/Page', '/Parent': 2j, '/MediaBox': [0, 0, 1, 1]}}
        infoform = ch.dev(['indirect', 'none', 'deleted', 'null'], 'information dictionary')
        base = ch.pick(VALUES)
        info, want = {}, {}
        for k, e in enumerate(ENTRIES):
            kind = ch.dev([base] + [v for v in VALUES if v != base], e)
            v, t = entry(objs, kind, k)
            if v is not None:
                info[e] = v
            want[e] = t
        n = max(objs) + 1
        objs[n] = info
        tr = {'/Info': complex(0, n)}
        if infoform == 'none':
            tr, want = {}, {e: None for e in ENTRIES}
        elif infoform == 'null':
            tr, want = {'/Info': 'null'}, {e: None for e in ENTRIES}
        form = ch.dev(['table', 'packed', 'stream'], 'form')
        pk = [x for x in sorted(objs) if not isinstance(objs[x], R.S)] if form == 'packed' else ()
        revs = [R.Rev(dict(objs), form={'packed': 'stream'}.get(form, form), packed=pk, trailer=tr)]
        later = ch.dev(['-', 'other object', 'entry', 'new dictionary', 'value object', 'moved', 'memory entry', 'memory delete', 'rewound'], 'later revision')
        f2 = form if form != 'packed' else 'stream'
        if later == 'other object':
            revs.append(R.Rev({3: {**objs[3], '/X': 1}}, form=f2, trailer=tr))
        elif later == 'entry' and tr:
            info2 = {**info, '/Title': b'(newer)'}
            if infoform == 'indirect':
                want['/Title'] = 'newer'
            revs.append(R.Rev({n: info2}, form=f2, trailer=tr))
        elif later == 'new dictionary':
            revs.append(R.Rev({n + 20: {'/Author': b'(someone)'}}, form=f2, trailer={'/Info': complex(0, n + 20)}))
            want = {e: 'someone' if e == '/Author' else None for e in ENTRIES}
        elif later == 'value object':
            refs = [int(v.imag) for v in info.values() if isinstance(v, complex) and int(v.imag) in objs]
            if not refs or infoform != 'indirect':
                raise Prune()
            revs.append(R.Rev({refs[0]: b'(changed)'}, form=f2, trailer=tr))
            want[[e for e in ENTRIES if isinstance(info.get(e), complex) and int(info[e].imag) == refs[0]][0]] = 'changed'
        elif later == 'moved':
            revs.append(R.Rev({}, form=f2, trailer={}))
            want = {e: None for e in ENTRIES}
        data = R.build(revs)[0]
        doc = pdf.loads(data)
        if infoform == 'deleted':
            doc = pdf.update_object(doc, n, None)
            if later != 'new dictionary':
                want = {e: None for e in ENTRIES}
        if later == 'memory entry' and infoform == 'indirect':
            doc = pdf.update_object(doc, n, {**info, '/Subject': b'<feff0041>'})
            want['/Subject'] = 'A'
        elif later == 'memory delete' and infoform == 'indirect':
            doc = pdf.update_object(doc, n, None)
            want = {e: None for e in ENTRIES}
        elif later == 'rewound' and infoform == 'indirect':
            d2 = pdf.commit(pdf.update_object(doc, n, {'/Title': b'(discarded)'}))
            expect(pdf.metadata(d2)['Title'] == 'discarded', 'new title not seen')
            doc = pdf.rewind(pdf.rewind(d2))
        ch.note((info, infoform, later, form))
        for d in (doc, pdf.loads(write(doc)[0])) if later != 'rewound' else (doc,):
            for again in range(2):
                got = pdf.metadata(d)
                for e in ENTRIES:
                    g, w = got[e[1:]], want[e]
                    expect(g == w or (w == '' and g is None), lambda: f'{e} is {g!r}, expected {w!r}')
                expect(d.metadata() == got, 'the method and the function differ')
        ch.step()
        ch.state((repr(info), infoform, later, form))
        ch.outcome(repr(want))
    return run

UNITS = {'plain': (b'text ', 'text '), 'parens': (b'(a)', '(a)'), 'escape': (b'\\(', '('), 'octal': (b'\\101', 'A'), 'octal1': (b'\\0608', '08'), 'newline': (b'\\n', '\n'), 'cut': (b'a\\\n', 'a'), 'crlf': (b'b\r\n', 'b\n'),
         'backslash': (b'\\\\', '\\'), 'latin': (b'\xe9', '\xe9'), 'other': (b'\x80', '\u2022')}


def h_sizes(ch):
    """Long strings: a short one repeated, with one exceptional character near either end; deep parentheses."""
    kind = ch.pick(list(UNITS) + ['hex', 'utf16 hex', 'utf16 raw', 'utf16 octal', 'pairs', 'deep', 'metadata'])
    n = ch.pick(LONG + [32768, 65536])
    if n > 5000 and kind not in ('plain', 'utf16 hex', 'hex', 'latin'):
        raise Prune()
    if kind == 'deep' and n > 1001 or kind == 'metadata' and n > 5000:
        raise Prune()
    where = ch.pick(['-', 'first', 'last', 'middle'])
    ch.note((kind, n, where))
    i = {'-': None, 'first': 0, 'last': n - 1, 'middle': n // 2}[where]
    if kind in UNITS:
        b, t = UNITS[kind]
        bs, ts = [b] * n, [t] * n
        if i is not None:
            bs[i], ts[i] = b'\\053', '+'
        tok, want = b'(' + b''.join(bs) + b')', ''.join(ts)
    elif kind == 'hex':
        raw = bytearray(b'a' * n)
        if i is not None:
            raw[i] = 0xA0
        tok, want = b'<' + bytes(raw).hex().encode() + b'>', ''.join('\u20ac' if c == 0xA0 else 'a' for c in raw)
    elif kind == 'deep':
        tok, want = b'(' * (n + 1) + b'x' + b')' * (n + 1), '(' * n + 'x' + ')' * n
    else:
        cs = ['\U0001d11e' if kind == 'pairs' else '\u5c28'] * n
        if i is not None:
            cs[i] = '\r'
        want = ''.join(cs)
        raw = b'\xfe\xff' + want.encode('utf-16-be')
        if kind in ('utf16 hex', 'pairs'):
            tok = b'<' + raw.hex().upper().encode() + b'>'
        elif kind == 'utf16 octal':
            tok = b'(' + b''.join(b'\\%03o' % c for c in raw) + b')'
        else:
            tok = b'(' + raw.replace(b'\\', b'\\\\').replace(b'(', b'\\(').replace(b'\r', b'\\r') + b')'
    if kind == 'metadata':
        other = b'(' + b'o' * n + b')'
        info = {'/Title': tok, '/Author': other, '/Producer': 8j}
        objs = {1: {'/Type': '/Catalog', '/Pages': 2j}, 2: {'/Type': '/Pages', '/Kids': [3j], '/Count': 1}, 3: {'/Type': '/Page', '/Parent': 2j, '/MediaBox': [0, 0, 1, 1]}, 8: tok, 9: info}
        packed = ch.pick([False, True])
        doc = pdf.loads(R.build([R.Rev(objs, form='stream' if packed else 'table', packed=sorted(objs) if packed else (), trailer={'/Info': 9j})])[0])
        for d in (doc, pdf.loads(write(pdf.update_object(doc, 9, {**info, '/Subject': tok}))[0])):
            m = pdf.metadata(d)
            expect(m['Title'] == want == m['Producer'] and m['Author'] == 'o' * n and m['Subject'] in (want if d is not doc else None,) and m['Keywords'] is None, lambda: f'{[(k, v and (len(v), v[:9])) for k, v in m.items()]}')
    else:
        check(tok, want)
    ch.step()
    ch.state((kind, n, where))
    ch.outcome(kind)


def harnesses(tier):
    t = tier == 'thorough'
    small = [b'a', b'8', b'1', b'()', b'\\n', b'\\\\', b'\\(', b'\\1', b'\\12', b'\\101', b'\\8', b'\\\n', b'\\\r\n', b'\\\r', b'\n', b'\r', b'\r\n', b'\\376', b'\xff']
    return [Harness('literal strings', h_literal(3 if t else 2, LIT), 0, 'every sequence of literal string pieces'),
            Harness('literal strings, longer', h_literal(5 if t else 4, small), 0, 'longer sequences of the pieces that interact'),
            Harness('bytes', h_byte(), 0, 'every byte in every notation'),
            Harness('UTF-16', h_utf16(3 if t else 2, TEXT), 0, 'every text over the alphabet in every notation'),
            Harness('hexadecimal strings', h_hex(6 if t else 4), 0, 'every sequence of hexadecimal pieces'),
            Harness('metadata', h_metadata(False), 3 if t else 2, 'information dictionaries and histories'),
            Harness('sizes', h_sizes, note='strings of up to 65536 characters in every notation, with an exceptional character at either end')]
