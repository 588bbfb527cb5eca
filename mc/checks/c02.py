"""C02: serialising then parsing an object gives the same object back, in legal PDF syntax."""
import pdfsyntax as pdf
from mc.engine import Harness, Prune, Violation
from mc import refpdf as R
from mc.common import same, expect, LONG

ATOMS = [True, False, 0, 1, -1, 12, 10 ** 20, -2147483648, 'null',
         0.5, -0.25, 1.0, 0.1, 1e-5, -2.5e-7, 1e16, 1e22, 123456789.125, 1.5e300, 5e-324, 3.0000000000000004, -0.001, 1e-4, 100000.5,
         '/N', '/', '/A#20b', '/Name.With-Signs_*!', b'()', b'(a b)', b'(\\))', b'((()))', b'(\\\\)', b'(>>)', b'(%\n])', b'(\xff\x00\r)', b'<>', b'<4A4b>',
         complex(0, 1), complex(2, 30), complex(65535, 7), [], {}]
FEW = [True, -7, 2.5e-7, '/N', b'(]>>(\\)))', b'<41>', complex(1, 9), [], {}, 'null']


def roundtrip(ch, v):
    text = pdf.serialize(v)
    ch.note(f'value={v!r} serialised={text!r}')
    ch.step()
    try:
        back = R.parse(bytes(text))
    except Exception as e:
        raise Violation(f'serialisation is not legal PDF: {e}')
    ch.outcome(R.canon(v))
    expect(same(back, v), f'a PDF reader sees {back!r}')
    if not isinstance(v, complex):
        got = pdf.parse_obj(text + b' ')
        expect(same(got, v), f'the library reads it back as {got!r}')


def h_atoms(ch):
    a = ch.pick(ATOMS)
    b = ch.pick(ATOMS)
    k = ch.pick(['alone', 'array', 'dict', 'mixed'])
    v = {'alone': a, 'array': [a, b], 'dict': {'/A': a, '/B': b}, 'mixed': [{'/A': [a], '/B': b}, b, {'/C': {'/D': a}}]}[k]
    if k == 'alone' and b != ATOMS[0]:
        raise Prune()
    ch.state(R.canon(v))
    roundtrip(ch, v)


def h_nest(depth):
    def h(ch):
        def gen(d):
            k = ch.pick(['v', 'a', 'd', 'va', 'dv', 'ad'] if d else ['v'])
            if k == 'v':
                return ch.pick(FEW[:5] if d < depth - 1 else FEW)
            if k == 'a':
                return [gen(d - 1)]
            if k == 'd':
                return {'/K': gen(d - 1)}
            if k == 'va':
                return [ch.pick(FEW), gen(d - 1), '/T']
            if k == 'dv':
                return {'/K': gen(d - 1), '/L': ch.pick(FEW)}
            return [gen(d - 1), {'/M': ch.pick(FEW)}]
        v = gen(depth)
        ch.state(R.canon(v))
        roundtrip(ch, v)
    return h


def h_triples(ch):
    """No two adjacent tokens run together."""
    v = [ch.pick(FEW) for _ in range(3)]
    w = ch.pick([v, {'/A': v[0], '/B': v[1], '/C': v[2]}, [[v[0]], {'/A': v[1]}, v[2]]])
    ch.state(R.canon(w))
    roundtrip(ch, w)


def h_stream(ch):
    entries = {}
    for k in ('/Type', '/X', '/Y'):
        if ch.pick([0, 1]):
            entries[k] = ch.pick([FEW, ['/T', 1e-6]][k == '/Type'])
    raw = ch.pick([b'', b'a', b'\n', b'payload\r', b'\r\n', b'(%<<', b'0 0 m\nendobj'])
    entries['/Length'] = len(raw)
    ch.state((R.canon(entries), raw))
    stream_roundtrip(ch, entries, raw)


def stream_roundtrip(ch, entries, raw):
    s = pdf.Stream(dict(entries), raw, raw)
    text = b'7 0 obj\n' + pdf.serialize(s) + b'\nendobj\n'
    ch.note(f'stream={entries!r} payload={raw!r} serialised={text!r}')
    ch.step()
    try:
        n, g, v, end = R.P(text).obj_at(0)
    except R.PdfError as e:
        raise Violation(f'serialisation is not legal PDF: {e}')
    expect(same(v, R.S(entries, raw)), f'a PDF reader sees {v!r}')
    ch.outcome(R.canon(v))
    got = pdf.parse_obj(text, 8)
    expect(isinstance(got, pdf.Stream), f'the library reads {got!r}')
    expect(same(got, R.S(entries, raw)), f'the library reads it back as {got!r}')


def h_sizes(ch):
    """One dimension at a time, far beyond what the other spaces reach."""
    kind = ch.pick(['string', 'hex', 'name', 'int', 'negative', 'big real', 'small real', 'array', 'reals', 'refs', 'dict', 'arrays', 'dicts', 'mixed', 'ref', 'stream', 'entries'])
    n = ch.pick(LONG)
    if kind in ('arrays', 'dicts', 'mixed') and n > 65 or kind in ('int', 'negative', 'big real', 'small real') and n > 300:
        raise Prune()
    inside = ch.pick(['alone', 'array', 'dict'])
    v = {'string': lambda: b'(' + (b'abc >[%' * n)[:n] + b')', 'hex': lambda: b'<' + b'4aB' * n + b'>', 'name': lambda: '/' + ('Name' * n)[:n],
         'int': lambda: 10 ** n + 7, 'negative': lambda: -(10 ** n), 'big real': lambda: 1.5 * 10.0 ** n, 'small real': lambda: -2.5 * 10.0 ** -n,
         'array': lambda: [[b'(])', '/N', -1, True, 'null'][i % 5] for i in range(n)], 'reals': lambda: [i / 7 for i in range(n)],
         'refs': lambda: [complex(i % 3, i) for i in range(n)], 'dict': lambda: {'/K%d' % i: [i, '/V', b'(>>)', complex(1, i)][i % 4] for i in range(n)},
         'arrays': lambda: 5, 'dicts': lambda: b'(s)', 'mixed': lambda: '/N', 'ref': lambda: complex(n, 10 ** min(n, 9) + n),
         'stream': lambda: None, 'entries': lambda: None}[kind]()
    ch.state((kind, n, inside))
    if kind in ('arrays', 'dicts', 'mixed'):
        for i in range(n):
            v = [v] if kind == 'arrays' or kind == 'mixed' and i % 2 else {'/K': v}
    if v is None:
        if inside != 'alone':
            raise Prune()
        raw = (b'endobj\n' * n)[:n] if kind == 'stream' else b'x\n'
        entries = {'/K%d' % i: i for i in range(n)} if kind == 'entries' else {}
        stream_roundtrip(ch, {**entries, '/Length': len(raw)}, raw)
        return
    roundtrip(ch, {'alone': v, 'array': ['/B', v, 7], 'dict': {'/B': 1, '/K': v, '/Z': '/E'}}[inside])


def harnesses(tier):
    t = tier == 'thorough'
    return [
        Harness('atoms', h_atoms, note='%d scalar values pairwise in 4 structures' % len(ATOMS)),
        Harness('triples', h_triples, note='all triples of 10 token kinds in 3 structures'),
        Harness('nesting', h_nest(3 if t else 2), note='all nestings to depth %d' % (3 if t else 2)),
        Harness('sizes', h_sizes, note='17 dimensions (lengths, depths, counts, exponents) up to 4097, in 3 places'),
        Harness('streams', h_stream, note='streams over entries x payloads'),
    ]
