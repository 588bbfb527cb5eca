"""C03: stream payloads survive parsing, writing and reloading byte for byte."""
import pdfsyntax as pdf
from mc.engine import Harness, Prune, Violation
from mc import refpdf as R
from mc.common import same, expect, write, strict, BASE, LONG

CHUNKS = [b'a', b'\n', b'\r', b'\r\n', b'endstream', b'endobj', b'stream\n', b'(', b'%', b'\x00\xff', b'>>']
CONTENTS = [b'', b'a', b'\n', b'\r', b'\r\n', b'text\r', b'x\nendstream', b'\nendstream\nendobj\n', b'endobj', b' ', b'\x00', b'(\\', b'%%EOF\n', bytes(range(256)), b'BT (a) Tj ET\n' * 9]
FILTS = [None, '/FlateDecode', '/ASCIIHexDecode', '/ASCII85Decode', ['/ASCII85Decode', '/FlateDecode'], ['/FlateDecode']]


def payload(ch, n):
    k = ch.pick(list(range(n + 1)))
    return b''.join(ch.pick(CHUNKS) for _ in range(k))


def h_parse(n):
    def h(ch):
        raw = payload(ch, n)
        length = ch.pick(['direct', 'after', 'before'])
        eol1 = ch.dev([b'\n', b'\r\n'])
        eol2 = ch.dev([b'\n', b'\r\n', b'\r', b''])
        gap = ch.dev([b'\n', b'', b'\r\n', b' '])
        sep = ch.dev([b'\n', b'\r\n', b' ', b'\n%c\n'])
        if length == 'direct':
            ln, others = str(len(raw)).encode(), {}
        else:
            # the length object is numbered and placed before or after the stream
            m = 4 if length == 'before' else 6
            ln, others = f'{m} 0 R'.encode(), {m: len(raw)}
        obj = b'5 0 obj\n<< /A 1 /Length ' + ln + b' >>' + gap + b'stream' + eol1 + raw + eol2 + b'endstream' + sep + b'endobj\n'
        objs = dict(BASE)
        objs.update(others)
        data = R.build_raw(objs, {5: (0, obj)})
        ch.note(f'object={obj!r} length={length}')
        ch.state((raw, length))
        doc = pdf.loads(data)
        got = doc.get_object(5j)
        ch.step()
        expect(isinstance(got, pdf.Stream), f'not a stream: {got!r}')
        expect(got.encoded == raw and got.stream == raw, f'payload read as {got.encoded!r}')
        expect(got.entries.get('/A') == 1, f'dictionary read as {got.entries!r}')
        ch.outcome(got.encoded)
        if length == 'direct':
            got = pdf.parse_obj(obj, 7)
            expect(isinstance(got, pdf.Stream) and got.encoded == raw, f'parse_obj gives {got!r}')
            regions = pdf.file_object_map(doc.data[0]['fdata'])
            five = [r for r in regions if r[2] == 'IND_OBJ' and r[3]['o_num'] == 5]
            expect(len(five) == 1 and same(five[0][3]['obj'], R.S({'/A': 1}, raw)), f'file map gives {five!r}')
            six = [r[3]['o_num'] for r in regions if r[2] == 'IND_OBJ']
            expect(six == sorted(objs) + [5] if False else sorted(six) == sorted(list(objs) + [5]), f'file map lists {six}')
    return h


MORE = [8191, 8192, 8193, 9999, 10000, 16384, 32768, 65535, 65536, 65537, 100000]


def h_sizes(ch):
    """Long payloads of every nature, read, written and read back."""
    n = ch.pick(LONG + MORE)
    what = ch.pick([b'a', b'\n', b'\x00', b'endstream\nendobj\n', b'stream\r\n', bytes(range(256))])
    length = ch.pick(['direct', 'after', 'before'])
    form = ch.pick(['table', 'stream', 'objstm'])
    raw = (what * n)[:n]
    objs = dict(BASE)
    m = 4 if length == 'before' else 6
    if length != 'direct':
        objs[m] = n
    objs[5] = R.S({'/A': 1}, raw)
    data, _ = R.build([R.Rev(objs, form='table' if form == 'table' else 'stream', packed=[1, 2, 3] if form == 'objstm' else [])],
                      lengths={} if length == 'direct' else {5: complex(0, m)})
    ch.note(f'{n} bytes of {what!r}, {length} length, {form}')
    ch.state((n, what, length, form))
    doc = pdf.loads(data)
    got = doc.get_object(5j)
    ch.step()
    expect(isinstance(got, pdf.Stream) and got.encoded == raw and got.stream == raw, lambda: f'payload of {n} bytes read as {str(got)[:200]}')
    filt = ch.pick([None, '/FlateDecode', '/ASCIIHexDecode', '/ASCII85Decode'])
    if filt == '/ASCII85Decode' and n > 10000 or n > 5000 and (length != 'direct' or filt == '/ASCIIHexDecode'):
        raise Prune()
    s, _ = pdf.forge_stream({'/B': 2, **({'/Filter': filt} if filt else {})}, raw)
    doc, ref = pdf.add_object(doc, s)
    out, _ = write(doc)
    live = strict(out).live()
    expect(live[5][1].raw == raw, lambda: f'a PDF reader sees {len(live[5][1].raw)} bytes in the stream nobody touched')
    g = live[int(ref.imag)][1]
    expect(R.decode(g.raw, g.entries, strict=True) == raw, 'a PDF reader decodes the added stream as something else')
    again = pdf.loads(out)
    a, b = again.get_object(5j), again.get_object(ref)
    ch.step()
    expect(a.encoded == raw and b.stream == raw, lambda: f'reloaded: {len(a.encoded)} and {len(b.stream)} bytes, expected {n}')
    ch.outcome((n, what, filt))


def h_write(ch):
    """A forged stream is added to, or replaces, a stream of a document in any organisation."""
    content = ch.pick(CONTENTS)
    filt = ch.pick(FILTS)
    form = ch.pick(['table', 'stream', 'objstm'])
    how = ch.pick(['add', 'replace', 'replace_indirect_length', 'keep_entries_indirect_length'])
    entries = {'/X': [1, 2j]}
    extra = ch.pick(['none', 'int', 'ref'])
    if extra == 'int':
        entries['/Length'] = 3
    if extra == 'ref':
        entries['/Length'] = 6j
    if filt:
        entries['/Filter'] = filt
    objs = dict(BASE)
    objs[4] = R.S({'/Old': True}, b'old payload')
    objs[6] = 11
    rev = R.Rev(objs, form='table' if form == 'table' else 'stream', packed=[1, 2, 3] if form == 'objstm' else [])
    data, ends = build(rev, how)
    doc = pdf.loads(data)
    ch.note(f'content={content!r} filter={filt} form={form} how={how} length={extra}')
    ch.state((content, str(filt), form, how, extra))
    given = dict(entries)
    if how == 'keep_entries_indirect_length':
        old = doc.get_object(4j)
        entries = dict(old.entries)
        entries['/X'] = [1, 2j]
        if filt:
            entries['/Filter'] = filt
        s, _ = pdf.forge_stream(entries, content)
    else:
        s, _ = pdf.forge_stream(entries, content)
        expect(entries == given, f'forge_stream modified the entries it was given: {entries!r}')
    if how == 'add':
        doc, ref = pdf.add_object(doc, s)
        n = int(ref.imag)
    else:
        n = 4
        doc = pdf.update_object(doc, 4, s)
    want = {'/X': [1, 2j]}
    if filt:
        want['/Filter'] = filt
    if how == 'keep_entries_indirect_length':
        want['/Old'] = True
    out, _ = write(doc)
    ch.step(2)
    ref = strict(out)
    g = ref.get(n)
    expect(g is not None and isinstance(g[1], R.S), f'a PDF reader sees {g!r}')
    e = {k: x for k, x in g[1].entries.items() if k != '/Length'}
    expect(same(e, want), f'a PDF reader sees the dictionary {e!r}, expected {want!r}')
    d = R.decode(g[1].raw, g[1].entries, strict=True)
    expect(d == content, f'a PDF reader sees the content {d!r}')
    again = pdf.loads(out).get_object(complex(0, n))
    expect(isinstance(again, pdf.Stream), f'reloaded as {again!r}')
    expect(again.stream == content, f'reloaded content {again.stream!r}')
    expect(same({k: x for k, x in again.entries.items() if k != '/Length'}, want), f'reloaded dictionary {again.entries!r}')
    ch.outcome((content, str(filt)))


def build(rev, how):
    if 'indirect_length' in how:
        # the same file with an indirect length for the existing stream
        data, ends = R.build([rev], lengths={4: 6j})
    else:
        data, ends = R.build([rev])
    return data, ends


def h_untouched(ch):
    """Streams nobody touched survive other edits and several save/reload rounds."""
    content = ch.pick(CONTENTS)
    filt = ch.pick(FILTS + ['/DCTDecode', ['/ASCIIHexDecode', '/DCTDecode']])
    form = ch.pick(['table', 'stream', 'objstm'])
    ind = ch.pick([False, True])
    op = ch.pick(['none', 'touch other', 'rewrite same', 'rotate', 'twice'])
    objs = dict(BASE)
    fl = [] if filt is None else ([filt] if isinstance(filt, str) else filt)
    raw = R.encode(content, fl)
    e = {'/K': (b'(v)')}
    if filt:
        e['/Filter'] = filt
    objs[4] = R.S(e, raw)
    objs[6] = len(raw)
    data, _ = R.build([R.Rev(objs, form='table' if form == 'table' else 'stream', packed=[1, 2, 3, 6] if form == 'objstm' else [])],
                      lengths={4: 6j} if ind else {})
    ch.note(f'content={content!r} filter={filt} form={form} indirect length={ind} op={op}')
    ch.state((content, str(filt), form, ind, op))
    doc = pdf.loads(data)
    for k in range(2 if op == 'twice' else 1):
        if op in ('touch other', 'twice'):
            doc = pdf.update_object(doc, 3, dict(BASE[3], **{'/Contents': 4j, '/N': k}))
        if op == 'rewrite same':
            doc = pdf.update_object(doc, 4, doc.get_object(4j))
        if op == 'rotate':
            doc = pdf.rotate(doc, 90)
        out, _ = write(doc)
        ch.step()
        g = strict(out).get(4)
        expect(g is not None and isinstance(g[1], R.S), f'a PDF reader sees {g!r}')
        expect(g[1].raw == raw, f'a PDF reader sees the payload {g[1].raw!r}, expected {raw!r}')
        doc = pdf.loads(out)
        s = doc.get_object(4j)
        expect(isinstance(s, pdf.Stream) and s.encoded == raw, f'reloaded as {s!r}')
        ent = {k: v for k, v in s.entries.items() if k != '/Length'}
        expect(same(ent, e), f'dictionary {ent!r}')
        if '/DCTDecode' not in fl:
            expect(s.stream == content, f'content {s.stream!r}')
    ch.outcome((raw, op))


def harnesses(tier):
    t = tier == 'thorough'
    return [
        Harness('parse', h_parse(4 if t else 3), bound=2 if t else 1, note='all payloads of up to %d significant chunks, direct and indirect lengths, line-ending deviations' % (4 if t else 3)),
        Harness('sizes', h_sizes, note='payloads of 1 to 100000 bytes of 6 natures, every length form, file form and filter'),
        Harness('write', h_write, note='contents x filters x file organisation x add/replace x length entry'),
        Harness('untouched', h_untouched, note='contents x filters (also unsupported ones) x organisation x edits'),
    ]
