"""C22: content streams follow the graphics and text state machine."""
import pdfsyntax as pdf
from mc.engine import Harness, Prune
from mc import refpdf as R
from mc.common import expect, SIZES, LONG

I = (1, 0, 0, 1, 0, 0)


def mul(m, n):
    """Product of two matrices given by their six numbers (ISO 32000-1 8.3.3)."""
    A = [[m[0], m[1], 0], [m[2], m[3], 0], [m[4], m[5], 1]]
    B = [[n[0], n[1], 0], [n[2], n[3], 0], [n[4], n[5], 1]]
    C = [[sum(A[i][k] * B[k][j] for k in range(3)) for j in range(3)] for i in range(3)]
    return (C[0][0], C[0][1], C[1][0], C[1][1], C[2][0], C[2][1])


class Machine:
    """Graphics and text state of the specification."""

    def __init__(self):
        self.st = {'ctm': I, 'Tc': 0, 'Tw': 0, 'Th': 100, 'Tl': 0, 'Tf': None, 'Tfs': None, 'Tmode': 0, 'Trise': 0}
        self.stack = []
        self.tm = self.tlm = None      # defined inside a text object only

    def run(self, *c):
        *a, op = c
        s = self.st
        if op == 'q':
            self.stack.append(dict(s))
        elif op == 'Q':
            self.st = self.stack.pop()
        elif op == 'cm':
            s['ctm'] = mul(a, s['ctm'])
        elif op in ('Tc', 'Tw'):
            s[op] = a[0]
        elif op == 'Tz':
            s['Th'] = a[0]
        elif op == 'TL':
            s['Tl'] = a[0]
        elif op == 'Tf':
            s['Tf'], s['Tfs'] = a
        elif op == 'Tr':
            s['Tmode'] = a[0]
        elif op == 'Ts':
            s['Trise'] = a[0]
        elif op == 'BT':
            self.tm = self.tlm = I
        elif op == 'ET':
            self.tm = self.tlm = None
        elif op == 'Td':
            self.tlm = self.tm = mul((1, 0, 0, 1, a[0], a[1]), self.tlm)
        elif op == 'TD':
            s['Tl'] = -a[1]
            self.run(a[0], a[1], 'Td')
        elif op == 'Tm':
            self.tlm = self.tm = tuple(a)
        elif op in ('T*', "'"):
            self.run(0, -s['Tl'], 'Td')
        elif op == '"':
            s['Tw'], s['Tc'] = a[0], a[1]
            self.run('T*')

    def rendering(self):
        s = self.st
        f = s['Tfs'] or 0
        return mul(mul((f * s['Th'] / 100, 0, 0, f, 0, s['Trise']), self.tm), s['ctm'])

    def key(self):
        return (tuple(self.st.items()), tuple(tuple(x.items()) for x in self.stack), self.tm, self.tlm)


PAGE = [('q',), ('Q',), (2, 0, 0, 3, 5, 7, 'cm'), (0, 1, -1, 0, 10, 0, 'cm'), ('BT',), ('re',)]
STATE = [('/F1', 12, 'Tf'), ('/F2', 0.5, 'Tf'), (3, 'Tc'), (4, 'Tw'), (50, 'Tz'), (14, 'TL'), (2, 'Tr'), (-5, 'Ts')]
TEXT = [('ET',), (10, 20, 'Td'), (-3, -15, 'TD'), (1, 2, 3, 4, 5, 6, 'Tm'), (0.5, 0, 0, -1, 9, 8, 'Tm'), ('T*',), (b'(x)', "'"), (7, 8, b'(y)', '"'), (b'(z)', 'Tj')]


def legal(m):
    if m.tm is None:
        return [c for c in PAGE if c[0] != 'Q' or m.stack] + STATE
    return TEXT + STATE


def lib_state(gs, ts):
    return {'ctm': tuple(gs[-1]['ctm']), **{k: ts[k] for k in ('Tc', 'Tw', 'Th', 'Tl', 'Tf', 'Tfs', 'Tmode', 'Trise')}}


def close(a, b):
    return len(a) == len(b) and all(abs(x - y) <= 1e-9 * max(1, abs(y)) for x, y in zip(a, b))


def check(m, gs, ts):
    got = lib_state(gs, ts)
    for k, v in m.st.items():
        ok = close(got[k], v) if k == 'ctm' else got[k] == v
        expect(ok, lambda: f'{k} is {got[k]!r}, expected {v!r}')
    if m.tm is not None:
        expect(close(ts['tm'], m.tm), lambda: f"text matrix {ts['tm']!r}, expected {m.tm!r}")
        expect(close(ts['tlm'], m.tlm), lambda: f"text line matrix {ts['tlm']!r}, expected {m.tlm!r}")
        expect(close(pdf.trm(ts, gs), m.rendering()), lambda: f'rendering matrix {pdf.trm(ts, gs)!r}, expected {m.rendering()!r}')


def text_of(c):
    return b' '.join(x if isinstance(x, bytes) else (x.encode() if isinstance(x, str) else R.ser(x)) for x in c)


def step(m, gs, ts, c, k):
    """The command goes through the parser and the machine; the same matrix objects may be used again by the caller."""
    cmds = pdf.parse_stream_content(text_of(c) + b' ')
    expect(len(cmds) == 1 and R.canon(cmds[0][:-1]) == R.canon(list(c[:-1])) and cmds[0][-1] == c[-1], lambda: f'{c!r} parsed as {cmds!r}')
    pdf.apply_command(cmds[0], gs, ts)
    m.run(*c)
    check(m, gs, ts)


def fresh_ok():
    gs, ts = [], {}
    pdf.apply_command(['BT'], gs, ts)
    m = Machine()
    m.run('BT')
    check(m, gs, ts)


def h_machine(depth, page=None, state=None, text=None):
    def run(ch):
        m, gs, ts = Machine(), [], {}
        n = ch.pick(range(1, depth + 1)) if depth < 3 else depth
        for k in range(n):
            opts = legal(m)
            if page is not None:
                opts = [c for c in opts if c in page]
            c = ch.pick(opts)
            ch.note(c)
            step(m, gs, ts, c, k)
            ch.step()
            ch.state(m.key())
        fresh_ok()
        ch.outcome(m.key())
    return run


def h_two(depth):
    """Two pages processed alternately: neither sees the other."""
    ops = [('q',), ('Q',), (2, 0, 0, 3, 5, 7, 'cm'), ('BT',), (10, 20, 'Td'), (1, 2, 3, 4, 5, 6, 'Tm'), ('/F1', 12, 'Tf'), ('ET',), (14, 'TL'), ('T*',)]

    def run(ch):
        pagesx = [(Machine(), [], {}), (Machine(), [], {})]
        for k in range(depth):
            i = ch.pick((0, 1))
            m, gs, ts = pagesx[i]
            c = ch.pick([c for c in legal(m) if c in ops])
            ch.note((i, c))
            step(m, gs, ts, c, k)
            o, ogs, ots = pagesx[1 - i]
            if ogs:
                check(o, ogs, ots)
            ch.step()
            ch.state((m.key(), o.key()))
        ch.outcome((pagesx[0][0].key(), pagesx[1][0].key()))
    return run


OPERANDS = [5, -3, 0, 0.25, -0.5, '/F1', b'(a(b)c)', b'(\\))', b'(BT)', b'<4142>', b'<>', b'()', [b'(A)', -120, b'(B)', 0.5], [], ['/X', [1, 2]], {'/A': 1}, {'/MCID': 0, '/B': [1, b'(>>)']}, {}, True]
OPERATORS = ['q', 'cm', 'Tj', 'TJ', "'", '"', 'T*', 'BT', 'B*', 'b', 'BDC', 'Do', 'sc', 'd0', 'n', 'f*', 'W', 'gs', 'ri']
SEPS = [b' ', b'\n', b'\r\n', b'\t', b' % comment ( [ << Tj\n', b'\x00', b'\x0c', b'']


def write_tokens(tokens, sep):
    out = b''
    for t in tokens:
        b = t.encode() if isinstance(t, str) else R.ser(t)
        if isinstance(t, list) and sep == b'':
            b = R.ser(t, style=1)
        s = sep
        if not s and out and (out[-1:] not in b')>]}' and b[:1] not in b'(<[/'):
            s = b' '
        out += (s if out else b'') + b
    return out


def h_split(n, operands, operators, ops_per=2):
    """Command lists written with every separator are split back exactly."""
    def run(ch):
        cmds = []
        for _ in range(ch.pick(range(n + 1))):
            k = ch.pick(range(ops_per + 1))
            cmds.append([ch.pick(operands) for _ in range(k)] + [ch.pick(operators)])
        sep = ch.pick(SEPS)
        tokens = [x for c in cmds for x in c]
        src = ch.dev([b'', b'\n', b'% first\n']) + write_tokens(tokens, sep) + ch.dev([b'\n', b'', b' % last', b'\r'])
        got = pdf.parse_stream_content(src)
        ch.note(src)
        expect(R.canon([list(c) for c in got]) == R.canon(cmds), lambda: f'{src!r} split into {got!r}, expected {cmds!r}')
        ch.step(len(cmds))
        ch.state(src)
        ch.outcome(len(cmds))
    return run


AFTER = {b'': [], b' Q': [['Q']], b'\nBT (b) Tj ET': [['BT'], [b'(b)', 'Tj'], ['ET']], b' [1 2] TJ': [[[1, 2], 'TJ']], b'[(EI)]TJ': [[[b'(EI)'], 'TJ']], b'(b)Tj': [[b'(b)', 'Tj']],
         b'/F1 1 Tf': [['/F1', 1, 'Tf']], b'<42>Tj': [[b'<42>', 'Tj']], b'<</A 1>>/B DP': [[{'/A': 1}, '/B', 'DP']], b'%c Tj\rQ': [['Q']], b'\x00\x0cQ': [['Q']], b'\rBI /W 1 ID x\nEI\nQ': [['Q']]}


def h_inline():
    """Commands around inline images."""
    data = [b'\x00\xffabc', b'EI', b'xEIx', b'(', b'<<', b'[', b'', b'% )', b' E I', b'q Q']

    def run(ch):
        head = ch.pick([b'/W 1 /H 1 /BPC 8 /CS /G', b'/W 2 /H 1 /IM true', b'/Width 1 /F [/AHx]', b'/D [1 0] /W 1'])
        d = ch.pick(data)
        before = ch.pick([b'', b'q ', b'(a) Tj\n'])
        after = ch.pick(list(AFTER))
        src = before + b'BI ' + head + b' ID ' + d + ch.pick([b'\nEI', b' EI', b'\r\nEI']) + after
        got = pdf.parse_stream_content(src)
        keep = [c for c in got if c[-1] not in ('BI', 'ID', 'EI')]
        want = [c for c in pdf.parse_stream_content(before) + pdf.parse_stream_content(after) if c[-1] not in ('BI', 'ID', 'EI')]
        exp = {b'': [], b'q ': [['q']], b'(a) Tj\n': [[b'(a)', 'Tj']]}[before] + AFTER[after]
        ch.note(src)
        expect(R.canon(want) == R.canon(exp), lambda: f'{want!r} instead of {exp!r}')
        expect(R.canon(keep) == R.canon(exp), lambda: f'{src!r} split into {got!r}, expected {exp!r} around the image')
        ch.step()
        ch.state(src)
        ch.outcome(len(got))
    return run

def h_sizes(ch):
    """Long runs of commands, deep nesting, many or long operands."""
    what = ch.pick(['nested', 'pairs', 'cm', 'Td', 'T*', 'Tm', 'objects', 'quotes', 'mixed', 'stack'])
    n = ch.pick([x for x in SIZES if x > 2] + [500, 1000])
    m, gs, ts = Machine(), [], {}
    seq = []
    if what == 'nested':
        for i in range(n):
            seq += [('q',), (1, 0, 0, 1, i, 1, 'cm'), (10 + i, 'TL')]
        seq += [('Q',)] * n + [('BT',), ('T*',)]
    elif what == 'pairs':
        for i in range(n):
            seq += [('q',), (1, 0, 0, 1, i, 1, 'cm'), ('/F%d' % i, i, 'Tf'), ('Q',)]
    elif what == 'stack':
        seq += [('q',)] * n + [(2, 0, 0, 2, 1, 1, 'cm')] + [('Q',)] * (n - 1) + [('BT',)]
    elif what == 'cm':
        seq += [(1, 0, 0, 1, 1, -1, 'cm')] * n + [(0, 1, -1, 0, 0, 0, 'cm')] * (n % 8)
    elif what in ('Td', 'T*', 'Tm', 'quotes'):
        seq += [('BT',), (12, 'TL'), ('/F1', 10, 'Tf')]
        for i in range(n):
            seq.append({'Td': (i, -2, 'Td'), 'T*': ('T*',), 'Tm': (1, 0, 0, 1, i, 2 * i, 'Tm'), 'quotes': (i, 1, b'(x)', '"')}[what])
        seq += [(3, 4, 'Td'), ('T*',)]
    elif what == 'objects':
        for i in range(n):
            seq += [('BT',), (1, i, 'Td'), (b'(%d)' % i, 'Tj'), ('ET',)]
    else:
        for i in range(n):
            seq += [('q',), ('BT',), (i, 5, 'TD'), ('T*',), (i % 7, 'Tc'), (i % 5, 'Ts'), ('ET',)] + ([('Q',)] if i % 3 else [])
    sep = ch.pick([b' ', b'\n', b'\r\n'])
    cmds = pdf.parse_stream_content(sep.join(text_of(c) for c in seq) + sep)
    expect(R.canon([list(c) for c in cmds]) == R.canon([list(c) for c in seq]), lambda: f'{len(cmds)} commands, expected {len(seq)}, or others')
    for i, (c, x) in enumerate(zip(cmds, seq)):
        pdf.apply_command(c, gs, ts)
        m.run(*x)
        ch.step()
        if len(seq) < 300 or i % 10 == 0:
            check(m, gs, ts)
    check(m, gs, ts)
    fresh_ok()
    ch.note((what, n))
    ch.state((what, n))
    ch.outcome(m.key())


def h_long(ch):
    """One command with a long operand, or many operands, between two others."""
    what = ch.pick(['string', 'escaped', 'hex', 'name', 'array', 'TJ', 'operands', 'dict', 'comment', 'blank', 'nested', 'number', 'image'])
    n = ch.pick(LONG + [5000, 10000, 65536])
    if what == 'nested' and n > 100 or what == 'number' and n > 20 or what in ('operands', 'dict', 'array', 'TJ') and n > 5000:
        raise Prune()
    v, op, gap = [], 'Tj', b' '
    if what == 'string':
        v = [b'(' + b'x' * n + b')']
    elif what == 'escaped':
        v = [b'(' + b'\\)' * n + b')']
    elif what == 'hex':
        v = [b'<' + b'41' * n + b'>']
    elif what == 'name':
        v, op = ['/' + 'N' * n], 'Do'
    elif what == 'array':
        v, op = [list(range(n))], 'd'
    elif what == 'TJ':
        v, op = [[x for i in range(n) for x in (b'(A)', -i)]], 'TJ'
    elif what == 'operands':
        v, op = [i / 4 for i in range(n)], 'scn'
    elif what == 'dict':
        v, op = ['/Span', {'/K%d' % i: i for i in range(n)}], 'BDC'
    elif what == 'comment':
        v, gap = [b'(a)'], b' % ' + b'(q' * n + b'\n'
    elif what == 'blank':
        v, gap = [b'(a)'], b' \n' * n
    elif what == 'number':
        v, op = [int('1' + '2' * n)], 'w'
    elif what == 'nested':
        x = [1]
        for _ in range(n):
            x = [x, 2]
        v, op = [x], 'd'
    data = b''
    if what == 'image':
        src = b'q BI /W 1 /H 1 ID ' + b'\x00' * n + b'\nEI Q'
        want = [['q'], ['Q']]
    else:
        src = b'q' + gap + b' '.join(x.encode() if isinstance(x, str) else R.ser(x) for x in v) + gap + op.encode() + gap + b'Q'
        want = [['q'], v + [op], ['Q']]
    got = [list(c) for c in pdf.parse_stream_content(src) if c[-1] not in ('BI', 'ID', 'EI')]
    ch.note((what, n))
    expect(R.canon(got) == R.canon(want), lambda: f'{len(got)} commands {repr(got)[:80]}, expected {repr(want)[:80]}')
    ch.step()
    ch.state((what, n))
    ch.outcome(what)


def harnesses(tier):
    t = tier == 'thorough'
    core = PAGE[:3] + [PAGE[4]] + [STATE[0], STATE[5], STATE[4]] + [TEXT[0], TEXT[1], TEXT[2], TEXT[3], TEXT[6]]
    return [Harness('state machine', h_machine(5 if t else 4), 0, 'every legal command sequence over the whole alphabet'),
            Harness('state machine, longer', h_machine(8 if t else 6, core), 0, 'longer sequences over the core alphabet'),
            Harness('two pages', h_two(6 if t else 5), 0, 'two pages interleaved'),
            Harness('splitting', h_split(2, OPERANDS[::2] if not t else OPERANDS, OPERATORS[::3] if not t else OPERATORS, 1 if not t else 1), 1, 'command lists'),
            Harness('operands', h_split(1, OPERANDS, OPERATORS[:8], 2), 1, 'operands of one command'),
            Harness('inline images', h_inline(), 0, 'commands around inline images'),
            Harness('sizes', h_sizes, note='up to 1000 commands of each kind, nesting up to 1000'),
            Harness('long operands', h_long, note='operands, comments and images of up to 65536 bytes')]
