"""C04: filter decoding and encoding are exact inverses and follow the PDF definitions."""
import pdfsyntax as pdf
from pdfsyntax import filters as F
from mc.engine import Harness, Prune, Violation
from mc import refpdf as R
from mc.common import expect, LONG

FILTERS = ['/FlateDecode', '/ASCIIHexDecode', '/ASCII85Decode']
DATA = [b'', b'a', b'\x00', b'ab', b'\x00\x00\x00\x00', b'abc\x00', b'\xff\xfe\n\r>~', b'hello world, hello world', bytes(range(256)), b'>', b'~>', b'<~']
MARK = b'#PDFSyntaxException'


def entry(ch, chain):
    if len(chain) == 0:
        return ch.pick([{}, {'/Filter': []}])
    if len(chain) == 1:
        return ch.pick([{'/Filter': chain[0]}, {'/Filter': list(chain)}])
    return {'/Filter': list(chain)}


def chain_of(ch, n):
    return [ch.pick(FILTERS) for _ in range(ch.pick(list(range(n + 1))))]


def h_decode(n):
    def h(ch):
        chain = chain_of(ch, n)
        data = ch.pick(DATA)
        variant = ch.pick([0, 1, 2])
        e = entry(ch, chain)
        extra = ch.pick([0, 1, 2])
        if extra == 1:
            e = dict(e, **{'/DecodeParms': ['null'] * len(chain)})
        elif extra == 2:
            if not chain:
                raise Prune()
            e = dict(e, **{'/DecodeParms': {} if isinstance(e['/Filter'], str) else [{} for _ in chain]})
        raw = R.encode(data, chain, variant)
        ch.state((tuple(chain), data, variant, extra))
        ch.note(f'chain={chain} data={data!r} encoded={raw!r} entries={e}')
        got = pdf.decode_stream(raw, e)
        ch.step()
        ch.outcome((len(chain), got))
        expect(got == data, f'decoded to {got!r}')
    return h


def h_encode(n):
    def h(ch):
        chain = chain_of(ch, n)
        data = ch.pick(DATA)
        e = entry(ch, chain)
        raw = pdf.encode_stream(data, e)
        ch.state((tuple(chain), data, R.canon(e)))
        ch.note(f'chain={chain} data={data!r} encoded={raw!r}')
        ch.step(2)
        expect(pdf.decode_stream(raw, e) == data, 'decoding what was encoded gives something else')
        try:
            ref = R.decode(raw, e, strict=True)
        except Exception as x:
            raise Violation(f'a PDF reader cannot decode it: {type(x).__name__} {x}')
        ch.outcome(raw)
        expect(ref == data, f'a PDF reader decodes {ref!r}')
    return h


def h_predictor(ch):
    cols = ch.pick([1, 2, 3, 5])
    rows = ch.pick([0, 1, 2, 3])
    pred = ch.pick([None, 1, 10, 12, 15])
    seed = ch.pick([0, 1, 250])
    pos = ch.pick([0, 1])                # alone or after another filter
    form = ch.pick([0, 1])
    tail = ch.pick([0, 1, cols - 1][:max(1, min(cols, 3))])      # incomplete last row
    data = bytes((seed + 37 * i * i) & 255 for i in range(cols * rows + tail))
    chain = ['/FlateDecode'] if pos == 0 else ['/ASCIIHexDecode', '/FlateDecode']
    parms = {'/Columns': cols}
    if pred is not None:
        parms['/Predictor'] = pred
    if pos == 0 and form == 0:
        e = {'/Filter': '/FlateDecode', '/DecodeParms': parms}
    else:
        e = {'/Filter': chain, '/DecodeParms': [None, parms][1 - pos:] if form else ['null', parms][1 - pos:]}
    import zlib
    payload = data if pred in (None, 1) else R.png_up_encode(data, cols)
    raw = R.encode(zlib.compress(payload), chain[:-1])
    ch.state((cols, rows, pred, seed, pos, form))
    ch.note(f'entries={e} data={data!r}')
    got = pdf.decode_stream(raw, e)
    ch.step()
    ch.outcome(got)
    expect(got == data, f'decoded to {got!r}')
    enc = pdf.encode_stream(data, e)
    expect(pdf.decode_stream(enc, e) == data, 'encoding then decoding does not give the content back')
    ref = R.decode(enc, {k: ([None if y == 'null' else y for y in x] if isinstance(x, list) else x) for k, x in e.items()}, strict=True)
    expect(ref == data, f'a PDF reader decodes the encoded content as {ref!r}')


def h_sizes(ch):
    n = ch.pick(list(range(0, 18)) + LONG + [8192, 32768, 65535, 65536, 65537])
    what = ch.pick([b'a', b'\x00', b'\xff', b'\n', bytes(range(256)), bytes((i * i * 7 + i // 3) & 255 for i in range(1021))])
    data = (what * (n // len(what) + 1))[:n]
    chain = ch.pick([[f] for f in FILTERS] + [[a, b] for a in FILTERS for b in FILTERS if a != b])
    variant = ch.pick([0, 1, 2])
    if n > 5000 and chain != ['/FlateDecode'] and what != b'a':
        raise Prune()
    e = entry(ch, chain)
    ch.state((n, what, tuple(chain), variant))
    ch.note(f'{n} bytes of {what[:9]!r}, {chain}')
    ch.step(2)
    expect(pdf.decode_stream(R.encode(data, chain, variant), e) == data, 'decoded to something else')
    raw = pdf.encode_stream(data, e)
    expect(pdf.decode_stream(raw, e) == data, 'decoding what was encoded gives something else')
    expect(R.decode(raw, e, strict=True) == data, 'a PDF reader decodes something else')
    ch.outcome((n, tuple(chain)))


def h_predictor_sizes(ch):
    import zlib
    cols = ch.pick([1, 2, 3, 4, 5, 7, 8, 9, 16, 31, 100, 255, 256, 257, 1000])
    rows = ch.pick([0, 1, 2, 5, 9, 16, 33, 100, 256])
    tail = ch.pick([0, 1, 2])
    if tail >= cols or cols * rows > 30000:
        raise Prune()
    data = bytes((37 * i * i + i // 5) & 255 for i in range(cols * rows + tail))
    e = {'/Filter': '/FlateDecode', '/DecodeParms': {'/Predictor': 12, '/Columns': cols}}
    ch.state((cols, rows, tail))
    ch.note(f'{rows} rows of {cols} and {tail} bytes')
    ch.step(2)
    expect(pdf.decode_stream(zlib.compress(R.png_up_encode(data, cols)), e) == data, 'decoded to something else')
    raw = pdf.encode_stream(data, e)
    expect(pdf.decode_stream(raw, e) == data, 'decoding what was encoded gives something else')
    expect(R.decode(raw, e, strict=True) == data, 'a PDF reader decodes something else')
    ch.outcome((cols, rows))


def h_rows(ch):
    """PNG row types other than Up, and pixels of several bytes: right data or an error marker, never wrong data."""
    import zlib
    cols, colors = ch.pick([1, 2, 3]), ch.pick([1, 3])
    tags = [ch.pick([0, 1, 2, 3, 4]) for _ in range(3)]
    pred = ch.pick([10, 11, 15])
    data = bytes((13 + 91 * i * i) & 255 for i in range(cols * colors * 3))
    e = {'/Filter': '/FlateDecode', '/DecodeParms': {'/Predictor': pred, '/Columns': cols, '/Colors': colors}}
    raw = zlib.compress(R.png_encode(data, cols * colors, tags, colors))
    ch.state((cols, colors, tuple(tags), pred))
    ch.note(f'entries={e} tags={tags} data={data!r}')
    got = pdf.decode_stream(raw, e)
    ch.step()
    ch.outcome(got)
    expect(got == data or (got[:len(MARK)] == MARK and set(tags) - {2}), f'decoded to {got!r}')


def h_tiff(ch):
    """Predictors of the TIFF kind and undefined ones: right data or an error marker, never wrong data."""
    import zlib
    pred = ch.pick([2, 3, 4, 5, 6, 7, 8, 9])
    cols, colors = ch.pick([1, 2, 3, 5]), ch.pick([1, 3])
    rows = ch.pick([1, 2, 3])
    pos = ch.pick([0, 1, 2])             # alone, after another filter, or in a list
    lead = ch.pick([0, 1, 2, 7])         # the first byte looks like the type of a PNG row, or not
    n = cols * colors
    data = bytes([lead] + [(13 + 91 * i * i) & 255 for i in range(1, n * rows)])
    parms = {'/Predictor': pred, '/Columns': cols, '/Colors': colors}
    e = {'/Filter': '/FlateDecode', '/DecodeParms': parms} if pos == 0 else {'/Filter': ['/FlateDecode'], '/DecodeParms': [parms]} if pos == 2 else \
        {'/Filter': ['/ASCIIHexDecode', '/FlateDecode'], '/DecodeParms': ['null', parms]}
    raw = R.encode(zlib.compress(data), ['/ASCIIHexDecode'] if pos == 1 else [])
    want = bytearray(data)               # what the definition of predictor 2 gives
    for r in range(rows):
        for i in range(colors, n):
            want[r * n + i] = (want[r * n + i] + want[r * n + i - colors]) & 255
    ch.state((pred, cols, colors, rows, pos, lead))
    ch.note(f'entries={e} data={data!r}')
    got = pdf.decode_stream(raw, e)
    ch.step(2)
    ch.outcome(got)
    marked = got[:len(MARK)] == MARK
    expect(marked or pred == 2 and got == bytes(want), lambda: f'predictor {pred}: decoded to {got!r}')
    enc = pdf.encode_stream(data, e)
    if enc[:len(MARK)] != MARK:
        expect(pred == 2 and not marked and pdf.decode_stream(enc, e) == data, lambda: f'predictor {pred}: encoded to {enc!r}')


def h_bad(ch):
    """Every truncation and every single-byte corruption of short encodings, and unsupported filters."""
    chain = ch.pick([['/FlateDecode'], ['/ASCIIHexDecode'], ['/ASCII85Decode'], ['/ASCIIHexDecode', '/FlateDecode'],
                     ['/ASCII85Decode', '/ASCIIHexDecode']])
    data = ch.pick([b'abcd', b'x', b'hello, world'])
    raw = R.encode(data, chain)
    kind = ch.pick(['cut', 'byte', 'empty'])
    e = {'/Filter': chain[0] if len(chain) == 1 else chain}
    if kind == 'cut':
        bad = raw[:ch.pick(list(range(1, len(raw))))]
    elif kind == 'byte':
        i = ch.pick(list(range(len(raw))))
        bad = raw[:i] + ch.pick([b'\x80', b'~', b'\xff', b'*', b'z']) + raw[i + 1:]
    else:
        bad = b''
    if bad == raw:
        raise Prune()
    ch.state((tuple(chain), data, bad))
    ch.note(f'chain={chain} damaged={bad!r}')
    got = pdf.decode_stream(bad, e)
    ch.step()
    try:
        ref = R.decode(bad, e)
    except Exception:
        ref = None
    ch.outcome(got)
    if got[:len(MARK)] == MARK:
        return
    # a decoder may be lenient about a missing end marker, but never invents data
    if ref is not None:
        expect(got == ref, f'decoded to {got!r}, the definition gives {ref!r}')
    else:
        lenient = R.decode_lenient(bad, e)
        expect(lenient is not None and got == lenient, f'undecodable data was accepted as {got!r}')


def h_unsupported(ch):
    odd = ch.pick(['/LZWDecode', '/DCTDecode', '/RunLengthDecode', '/Crypt', '/JPXDecode', '/Unknown', '/Flate'])
    chain = ch.pick([[odd], [odd, '/FlateDecode'], ['/FlateDecode', odd], ['/ASCIIHexDecode', odd, '/FlateDecode'], ['/ASCII85Decode', '/ASCIIHexDecode', odd]])
    data = ch.pick(DATA[:8])
    raw = R.encode(data, chain)
    e = {'/Filter': chain} if len(chain) > 1 or ch.pick([0, 1]) else {'/Filter': odd}
    ch.state((tuple(chain), data, R.canon(e)))
    got = pdf.decode_stream(raw, e)
    ch.step()
    ch.outcome(tuple(chain))
    expect(got[:len(MARK)] == MARK, f'{e}: no error marker but {got!r}')
    got = pdf.encode_stream(data, e)
    expect(got[:len(MARK)] == MARK, f'encoding with {e}: no error marker but {got!r}')


def harnesses(tier):
    n = 4 if tier == 'thorough' else 3
    return [
        Harness('decode', h_decode(n), note=f'all filter chains up to {n}, 12 contents, 3 legal encodings each, parameter forms'),
        Harness('encode', h_encode(n), note=f'all filter chains up to {n}, 12 contents'),
        Harness('predictor', h_predictor, note='columns x rows x predictor x position x parameter form'),
        Harness('sizes', h_sizes, note='contents of 0 to 65537 bytes of 6 natures through every chain of one or two filters'),
        Harness('predictor sizes', h_predictor_sizes, note='rows of 1 to 1000 bytes'),
        Harness('rows', h_rows, note='all PNG row types on three rows, one and three byte pixels'),
        Harness('other predictors', h_tiff, note='TIFF and undefined predictors, decoded and encoded, must not give wrong data'),
        Harness('damaged', h_bad, note='every truncation and byte corruption of short encodings'),
        Harness('unsupported', h_unsupported, note='unsupported filters at every place of a chain'),
    ]
