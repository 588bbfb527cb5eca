"""C01: any legal layout of an object parses to the same value."""
import pdfsyntax as pdf
from mc.engine import Harness, Prune, Violation
from mc import refpdf as R
from mc.common import same, norm, expect, LONG

ASSUMPTIONS = ['names use the characters ISO 32000-1 7.3.5 allows without #xx escapes; a scalar is followed by at least one delimiter']

SEPS = [b' ', b'\n', b'\r\n', b'\r', b'\t', b'\x00', b'\x0c', b'  ', b'%c\n', b' %)>]}\r', b'%<<([\r\n', b'% 5 0 obj >> \\\n\t']

SALPH = [b'a', b'(', b')', b'\\', b'<', b'>', b'[', b']', b'%', b'\n', b'/']
ATOMS = [True, False, 'null', 0, -12, 123, 4.5, -0.002, '/N', '/', '/A#20b', b'()', b'(a)', b'<>', b'<4A>', b'<4 a\n4B 5>',
         b'(\\))', b'(a(b)c)', b'(\\\\)', b'(>>])', b'(%)', complex(0, 1), complex(3, 12), complex(0, 0), [], {}]
NUMS = [(b'+17', 17), (b'-98', -98), (b'00012', 12), (b'34.5', 34.5), (b'-3.62', -3.62), (b'+123.6', 123.6), (b'4.', 4.0),
        (b'-.002', -0.002), (b'0.0', 0.0), (b'.5', 0.5), (b'2147483647', 2147483647), (b'-0', 0)]


def need_space(a, b):
    return a[-1:] not in b'()<>[]{}%' and b[:1] not in b'()<>[]{}/%'


def tokens(v):
    """Token list of a value; references are one value of three tokens."""
    if isinstance(v, complex):
        return [str(int(v.imag)).encode(), str(int(v.real)).encode(), b'R']
    if isinstance(v, list):
        return [b'['] + [t for x in v for t in tokens(x)] + [b']']
    if isinstance(v, dict):
        return [b'<<'] + [t for k, x in v.items() for t in [k.encode()] + tokens(x)] + [b'>>']
    return [R.ser(v)]


def contexts(atom):
    yield 'alone', atom
    yield 'array', [atom]
    yield 'array2', [1, atom, '/Z']
    yield 'dict', {'/K': atom}
    yield 'dict2', {'/A': 1, '/K': atom, '/Z': [2]}
    yield 'nested', [{'/K': [atom, {'/L': atom}]}, atom]
    yield 'nested2', {'/A': {'/B': {'/C': atom}}, '/D': [[atom], [[atom]]]}


def check_parse(ch, text, start, want, what=''):
    ch.note(f'bytes={text!r} start={start}')
    got = pdf.parse_obj(text, start) if start else pdf.parse_obj(text)
    ch.step()
    ch.outcome(R.canon(want))
    expect(same(got, want), f'parsed {got!r}, expected {want!r}')


def h_strings(n):
    def h(ch):
        m = ch.pick(list(range(n + 1)))
        body = b''.join(ch.pick(SALPH) for _ in range(m))
        s = b'(' + body + b')'
        try:
            if R.parse(s) != s:
                raise Prune()
        except (R.PdfError, IndexError):
            raise Prune()
        name, v = ch.pick(list(contexts(s)))
        comp = ch.pick([0, 1])
        ch.state((name, s))
        check_parse(ch, R.ser(v, style=comp) + b' ', 0, v)
    return h


def h_hex(ch):
    body = b''.join(ch.pick([b'', b'4', b'aF', b' ', b'\n', b'\r\n\t']) for _ in range(3))
    s = b'<' + body + b'>'
    name, v = ch.pick(list(contexts(s)))
    comp = ch.pick([0, 1])
    ch.state((name, s))
    check_parse(ch, R.ser(v, style=comp) + b' ', 0, v)


def h_numbers(ch):
    raw, val = ch.pick(NUMS)
    before = ch.pick([b'', b'/A', b'(s)', b'<41>', b'7 ', b'true ', b'[]', b'1 0 R '])
    after = ch.pick([b']', b' ]', b'\r\n]', b'/B]', b'(t)]', b'<42>]', b'[]]', b'<<>>]', b'%c\n]', b' 8]', b' 3 0 R]', b'\x00]'])
    text = b'[' + before + raw + after
    ch.state(text)
    want = R.parse(text)
    i = 1 if before else 0
    if i >= len(want) or want[i] != val:
        raise Prune()
    check_parse(ch, text + b' ', 0, want)


def h_layout(ch):
    """Every placement of up to `bound` unusual separators in representative values."""
    shape = ch.pick(list(range(8)))
    a = ch.pick(ATOMS)
    v = [lambda: a, lambda: [a], lambda: [a, a], lambda: {'/K': a}, lambda: {'/K': a, '/L': [a, 5]}, lambda: [[a], {'/X': a}],
         lambda: {'/K': {'/M': a}, '/N': complex(0, 9)}, lambda: [complex(0, 7), a, complex(2, 7), 3, 4]][shape]()
    if isinstance(v, complex):
        raise Prune()          # an object is never a bare reference
    toks = tokens(v)
    pre = ch.dev([b'', b' ', b'\r\n', b'%c\n', b'\x00\t'])
    start = ch.dev([0, 1, 2])
    out = [b'\n(', b'>>', b''][start][:start] if start else b''
    start = len(out)
    out += pre
    for i, t in enumerate(toks):
        if i:
            # '' is the compact default where legal
            if need_space(toks[i - 1], t):
                opts = SEPS
            else:
                opts = [b''] + SEPS
            if t[:1] == b'%':
                opts = SEPS
            s = ch.dev(opts)
            # a reference is three tokens separated by white space, comments inside it are legal too but rare
            out += s
        out += t
    end = ch.dev([b' ', b'\nendobj', b'\r\n', b'\n2 0 obj', b'%c\n', b'/Q', b'(z)', b']', b'>>'])
    out += end
    ch.state((shape, R.canon(a)))
    check_parse(ch, out, start, v)


def h_depth(ch):
    """All bracket nestings up to depth 4, two members wide."""
    def gen(d):
        k = ch.pick(['s', 'a', 'aa', 'd', 'dd'] if d else ['s', 'n', 'r'])
        if k == 's':
            return b'(])>>'[:ch.pick([5])] + b')' if False else b'(\\))'
        if k == 'n':
            return -1
        if k == 'r':
            return complex(1, 20)
        if k == 'a':
            return [gen(d - 1)]
        if k == 'aa':
            return [gen(d - 1), '/T', gen(0)]
        if k == 'd':
            return {'/K': gen(d - 1)}
        return {'/K': gen(0), '/L': gen(d - 1)}
    v = gen(ch.pick([1, 2, 3, 4]))
    ch.state(R.canon(v))
    check_parse(ch, R.ser(v, style=ch.pick([0, 1, 2])) + b'\n', 0, v)


def h_indirect(ch):
    """The object body inside '4 0 obj ... endobj' of a file, read through get_object."""
    a = ch.pick(ATOMS + [[1, 2], {'/A': [b'(])', {'/B': b'<4>'}]}, {'/K': complex(5, 3)}])
    gen = ch.dev([0, 3])
    s1, s2, s3, s4 = (ch.dev(SEPS), ch.dev(SEPS), ch.dev([b'\n'] + SEPS), ch.dev([b'\n'] + SEPS))
    if isinstance(a, complex):
        raise Prune()
    body = b''
    toks = tokens(a)
    for i, t in enumerate(toks):
        if i and need_space(toks[i - 1], t):
            body += b' '
        body += t
    if ch.dev([False, True]) and toks[0][:1] in b'<([/':
        s3 = b''                                   # obj<<
    if ch.dev([False, True]) and toks[-1][-1:] in b'>])':
        s4 = b''                                   # >>endobj
    raw = b'4' + s1 + str(gen).encode() + s2 + b'obj' + s3 + body + s4 + b'endobj' + ch.dev(SEPS[1:] + [b' \n'])
    doc_bytes = R.build_raw({1: {'/Type': '/Catalog', '/Pages': 2j}, 2: {'/Type': '/Pages', '/Kids': [3j], '/Count': 1},
                             3: {'/Type': '/Page', '/Parent': 2j, '/MediaBox': [0, 0, 9, 9]}}, {4: (gen, raw)})
    ch.note(f'object={raw!r}')
    doc = pdf.loads(doc_bytes)
    got = doc.get_object(complex(gen, 4))
    ch.step()
    ch.state((R.canon(a), gen))
    ch.outcome(R.canon(a))
    expect(same(got, a), f'object 4 read as {got!r}, expected {a!r}')


def h_sizes(ch):
    """One dimension at a time, far beyond what the other spaces reach."""
    kind = ch.pick(['string', 'parens', 'escaped', 'octal', 'hex', 'name', 'int', 'real', 'array', 'nums', 'refs', 'dict', 'arrays', 'dicts', 'mixed',
                    'comment', 'comments', 'space', 'start', 'follow', 'ref'])
    n = ch.pick(LONG)
    pre = end = b''
    start = 0
    if kind in ('arrays', 'dicts', 'mixed') and n > 65 or kind == 'parens' and n > 1000 or kind in ('int', 'real') and n > 17:
        raise Prune()
    if kind == 'string':
        v = b'(' + (b'abc)d]>%'.replace(b')', b'\\)') * n)[:n].rstrip(b'\\') + b')'
    elif kind == 'parens':
        v = b'(' * n + b'x' + b')' * n
    elif kind == 'escaped':
        v = b'(' + b'\\\\' * n + b')'
    elif kind == 'octal':
        v = b'(' + b'\\051' * n + b')'
    elif kind == 'hex':
        v = b'<' + (b'4aB0 ' * n)[:n] + b'>'
    elif kind == 'name':
        v = '/' + ('Name' * n)[:n]
    elif kind == 'int':
        v = int(('1234567890' * n)[:n])
    elif kind == 'real':
        v = None
        text = ('1234567890' * n)[:n] + '.5'
    elif kind == 'array':
        v = [[b'(])', '/N', -1, True][i % 4] for i in range(n)]
    elif kind == 'nums':
        v = list(range(n))
    elif kind == 'refs':
        v = [complex(i % 3, i) for i in range(n)]
    elif kind == 'dict':
        v = {'/K%d' % i: [i, '/V', b'(>>)', complex(1, i)][i % 4] for i in range(n)}
    elif kind in ('arrays', 'dicts', 'mixed'):
        v = b'(s)'
        for i in range(n):
            v = [v] if kind == 'arrays' or kind == 'mixed' and i % 2 else {'/K': v}
    elif kind == 'comment':
        v, pre = [1, 2], b'%' + b')>]<' * n + b'\n'
    elif kind == 'comments':
        v, pre = {'/A': 1}, b'%]\n' * n
    elif kind == 'space':
        v, pre = {'/A': 1}, b' \t\r\n' * n
    elif kind == 'start':
        v, start = {'/A': [b'(x)']}, n
    elif kind == 'follow':
        v, end = [b'(x)', 5], b'(]' * n
    elif kind == 'ref':
        v = [complex(n, 10 ** min(n, 9) + n), n]
    layout = ch.pick([0, 1, 2])
    inside = ch.pick(['array', 'dict', 'alone'])
    if kind == 'real':
        v, text = [float(text)], f'[{text}]'.encode()
        if inside != 'array':
            raise Prune()
    else:
        v = {'alone': v, 'array': ['/B', v, 7], 'dict': {'/B': 1, '/K': v, '/Z': '/E'}}[inside]
        text = R.ser(v, style=layout)
    ch.state((kind, n, layout, inside))
    ch.note(f'{kind} {n} {inside}')
    got = pdf.parse_obj(b'(' * start + pre + text + b' ' + end, start)
    ch.step()
    ch.outcome((kind, n))
    expect(same(got, v), lambda: f'parsed {str(got)[:200]}, expected {str(v)[:200]}')


def harnesses(tier):
    t = tier == 'thorough'
    return [
        Harness('sizes', h_sizes, note='21 dimensions (lengths, depths, counts, distances) up to 4097, in 3 places and 3 layouts'),
        Harness('strings', h_strings(4 if t else 3), note='all legal literal strings over 11 significant characters up to length %d, in 7 contexts, 2 layouts' % (4 if t else 3)),
        Harness('hexstrings', h_hex, note='hexadecimal strings with white space, in 7 contexts'),
        Harness('numbers', h_numbers, note='12 numeric forms between every kind of neighbour token'),
        Harness('nesting', h_depth, note='all nestings of arrays and dictionaries to depth 4'),
        Harness('layout', h_layout, bound=3 if t else 2, note='26 atoms in 8 shapes, every placement of unusual white space, comments, start offsets and followers'),
        Harness('indirect', h_indirect, bound=3 if t else 2, note='same through an indirect object of a file'),
    ]
