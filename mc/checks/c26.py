"""C26: byte access is the same however the file is provided, and hex dumps are exact."""
import io
import os
import re
import pdfsyntax as pdf
from mc.engine import Harness, Prune
from mc import files as F, refpdf as R, scale as SC
from mc.common import same, expect, BASE, scratch, LONG
from mc.checks.c05 import compare
from mc.checks.c06 import seeds

CONTENT = bytes((7 * i + 48) % 256 for i in range(64))


def provide(mode, data):
    if mode == 'bytes':
        return pdf.bdata_provider(data)
    if mode == 'file':
        return pdf.bdata_provider(io.BytesIO(data), 'SINGLE')
    if mode == 'on demand':
        return pdf.bdata_provider(io.BytesIO(data), 'CONTINUOUS')
    if mode == 'dummy':
        return pdf.bdata_dummy(data)
    cut = int(mode.split()[1]) % (len(data) + 1)
    base = pdf.bdata_provider(data[:cut] + b'former tail') if 'tail' in mode else pdf.bdata_provider(data[:cut])
    return pdf.merge_fdata(base, cut, data[cut:])


MODES = ['bytes', 'file', 'on demand', 'dummy', 'merged 1', 'merged 3', 'merged 5 tail', 'merged 0 tail']


def h_requests(maxlen):
    def h(ch):
        n = ch.pick(list(range(1, maxlen + 1)))
        data = CONTENT[:n]
        mode = ch.pick(MODES)
        start = ch.pick(list(range(-n - 2, n + 3)))
        length = ch.pick([-1] + list(range(0, n + 2)))
        ch.note(f'{n} bytes, mode {mode}, request ({start}, {length})')
        ch.state((n, start, length))
        f = provide(mode, data)
        expect(pdf.bdata_length(f) == n, 'wrong length')
        expect(pdf.bdata_all(f) == data, 'wrong full content')
        buf, i, off, cnt = f(start, length)
        ch.step(3)
        a = start if start >= 0 else max(n + start, 0)
        if start < -n: #More bytes than there are, from the end: as with plain bytes
            b0, i0, _, c0 = provide('bytes', data)(start, length)
            expect(cnt == c0 and buf[i:i + cnt] == b0[i0:i0 + c0], f'{buf[i:i + cnt]!r} read, plain bytes give {b0[i0:i0 + c0]!r}')
            expect(data.startswith(b0[i0:i0 + c0]), 'not the first bytes')
            return ch.outcome(c0)
        want = data[a:] if length == -1 else data[a:a + length]
        expect(cnt == len(want), f'{cnt} readable bytes announced, expected {len(want)}')
        expect(buf[i:i + cnt] == want, f'{buf[i:i + cnt]!r} read, expected {want!r}')
        if cnt:
            expect(off + i == a, f'bytes of position {a} announced at {off + i}')
        ch.outcome(want)
    return h


def check_dump(text, data, a, b):
    """Every byte of [a, b) once, at its right offset, with the matching column (context before a on its line allowed)."""
    seen = {}
    for line in text.splitlines():
        m = re.fullmatch(r'(\d{10})  ((?:[0-9a-f]{2}(?: |$)?)*?) *  \|([\x20-\x7e]*)\|', line)
        expect(m, f'unexpected dump line {line!r}')
        off, hx = int(m.group(1)), bytes.fromhex(m.group(2))
        expect(len(m.group(3)) == len(hx), f'columns differ in {line!r}')
        for k, c in enumerate(hx):
            expect(off + k not in seen, f'offset {off + k} dumped twice')
            seen[off + k] = c
            p = m.group(3)[k]
            expect(p == chr(c) if 33 <= c <= 126 else p in ' .', f'byte {c:#x} printed as {p!r}')
    lo = min(seen) if seen else a
    expect(all(data[k] == c for k, c in seen.items()), 'a wrong byte is dumped')
    expect(set(range(a, b)) <= set(seen), f'bytes missing from the dump of [{a}, {b}): {sorted(set(range(a, b)) - set(seen))}')
    expect(set(seen) <= set(range(a // 10 * 10, b)), f'bytes outside [{a}, {b}) are dumped: {sorted(set(seen) - set(range(a, b)))}')


def h_dump(maxlen):
    def h(ch):
        n = ch.pick(list(range(1, maxlen + 1)))
        mode = ch.pick(MODES)
        a = ch.pick([None] + list(range(n)))
        b = ch.pick([None] + list(range((a or 0) + 1, n + 1)))
        data = CONTENT[:n]
        ch.note(f'{n} bytes, mode {mode}, range {a}..{b}')
        ch.state((n, a, b))
        text = pdf.hexdump(provide(mode, data), a, b)
        ch.step()
        check_dump(text, data, a or 0, b if b is not None else n)
        ch.outcome(text)
    return h


def h_allbytes(ch):
    k = ch.pick(list(range(256)))
    data = bytes([k, 65, k])
    ch.state(k)
    check_dump(pdf.hexdump(provide('bytes', data)), data, 0, 3)
    ch.step()


def load(mode, data):
    if mode == 'bytes':
        return pdf.loads(data)
    if mode == 'file':
        return pdf.load(io.BytesIO(data))
    if mode == 'on demand':
        return pdf.load(io.BytesIO(data), 'CONTINUOUS')
    p = os.path.join(scratch(), 'in.pdf')
    with open(p, 'wb') as f:
        f.write(data)
    if mode == 'path':
        return pdf.readfile(p)
    return pdf.load(open(p, 'rb'), 'CONTINUOUS')


def h_load(sd):
    def h(ch):
        name, steps = ch.pick(sd)
        mode = ch.pick(['bytes', 'file', 'on demand', 'path', 'path on demand'])
        opts = {'eol': ch.pick([b'\n', b'\r\n', b'\r']), 'binary': ch.pick([True, False])}
        lead = ch.pick([0, 200])
        f = F.assemble([(s, d, fm, {**at, 'pad': lead}) for s, d, fm, at in steps], opts)
        tail = ch.pick(['', 'noeol', 'blank'])
        data = f.data.rstrip(b'\r\n') if tail == 'noeol' else f.data + (b'\n\n' if tail else b'')
        ch.note(f'{name} loaded by {mode} tail={tail} {opts} pad={lead}')
        ch.state((name, tail, repr(opts), lead))
        doc = load(mode, data)
        compare(doc, f.states[-1], f.structural[-1], f.trailers[-1], f.maxnum)
        ch.step(f.maxnum)
        if ch.pick([False, True]):
            doc = pdf.update_object(doc, 6 if 6 in f.states[-1] else 5, [b'(new)'])
        p = os.path.join(scratch(), 'out.pdf')
        pdf.writefile(doc, p)
        out = open(p, 'rb').read()
        expect(out.startswith(f.data.rstrip(b'\r\n')), 'the original bytes are not preserved')
        base = os.path.join(scratch(), 'out2.pdf')
        ref = pdf.loads(data)
        if len(pdf.changes(doc)):
            ref = pdf.update_object(ref, 6 if 6 in f.states[-1] else 5, [b'(new)'])
        pdf.writefile(ref, base)
        ch.step(2)
        expect(open(base, 'rb').read() == out, 'the file written depends on the access mode')
        ch.outcome((name, len(out)))
    return h


def h_updated(sd):
    """Data of a document updated in memory: every window around the boundaries of the revisions."""
    def h(ch):
        name, steps = ch.pick(sd[:4])
        f = F.assemble(steps, {})
        mode = ch.pick(['bytes', 'on demand'])
        doc = load(mode, f.data)
        for k in range(ch.pick([1, 2])):
            doc = pdf.commit(pdf.update_object(doc, 5, [k, b'(new)']))
        p = os.path.join(scratch(), 'out.pdf')
        pdf.writefile(doc, p)
        out = open(p, 'rb').read()
        fd = doc.data[-1]['fdata']
        cut = len(f.data)
        ch.note(f'{name} by {mode}')
        ch.state((name, len(doc.index)))
        expect(pdf.bdata_length(fd) == len(out), 'length differs from the file written')
        expect(pdf.bdata_all(fd) == out, 'content differs from the file written')
        marks = [0, cut, len(out)] + [len(d['bdata']) + cut for d in doc.data if 'bdata' in d][:1]
        for m in marks:
            for a in range(max(0, m - 4), min(len(out), m + 4)):
                for ln in (0, 1, 3, 9, 500, -1):
                    for s in (a, a - len(out)):
                        buf, i, off, n = fd(s, ln)
                        want = out[a:] if ln == -1 else out[a:a + ln]
                        expect(buf[i:i + n] == want and (not n or off + i == a), f'request ({s}, {ln}) gives {buf[i:i + n]!r} at {off + i}, expected {want!r}')
                        ch.step()
        check_dump(pdf.hexdump(fd, cut - 3, cut + 13), out, cut - 3, cut + 13)
    return h

def content(n):
    return bytes((i * 7 + i // 256 * 3 + 48) % 256 for i in range(n))


def h_sizes(ch):
    """Contents of many sizes; windows at both ends, at powers of two, and across them."""
    n = ch.pick([x for x in LONG if x > 8] + [8191, 8192, 8193, 65535, 65536, 65537, 100000, 1048577])
    data = content(n)
    modes = ['bytes', 'file', 'on demand', 'dummy', f'merged {n // 2}', f'merged {n - 1} tail', 'merged 1', f'merged {min(n, 4096)}']
    mode = ch.pick(modes)
    f = provide(mode, data)
    ch.note(f'{n} bytes, mode {mode}')
    expect(pdf.bdata_length(f) == n, 'wrong length')
    expect(pdf.bdata_all(f) == data, 'wrong full content')
    cut = int(mode.split()[1]) if 'merged' in mode else n // 3
    starts = sorted({x for b in (0, 1, 10, 255, 256, 1000, 1023, 1024, 4095, 4096, 65535, 65536, cut, n // 2, n) for x in (b - 1, b, b + 1, -b) if -n <= x <= n})
    for s in starts:
        for ln in sorted({-1, 0, 1, 2, 15, 16, 255, 256, 257, 1024, 4096, 65536, n, n + 1, abs(cut - s), abs(cut - s) + 1}):
            buf, i, off, cnt = f(s, ln)
            a = s if s >= 0 else n + s
            want = data[a:] if ln == -1 else data[a:a + ln]
            expect(cnt == len(want) and buf[i:i + cnt] == want, lambda: f'request ({s}, {ln}) gives {cnt} bytes, expected {len(want)}, or other bytes')
            if cnt:
                expect(off + i == a, f'request ({s}, {ln}): bytes of position {a} announced at {off + i}')
            ch.step()
    ch.state((n, mode))
    ch.outcome((n, mode.split()[0]))


def h_large_dump(ch):
    n = ch.pick([x for x in LONG if x > 30] + [9999, 10000, 10001, 65535, 65536, 65537, 100000])
    mode = ch.pick(['bytes', 'on demand', f'merged {n // 2}'])
    rng = ch.pick(['all', 'end', 'start', 'middle', 'one', 'last'])
    a, b = {'all': (None, None), 'end': (n - 13, None), 'start': (None, 17), 'middle': (n // 2 - 7, n // 2 + 16), 'one': (n // 2, n // 2 + 1), 'last': (n - 1, n)}[rng]
    data = content(n)
    ch.note(f'{n} bytes, mode {mode}, range {a}..{b}')
    if n > 11000 and (rng == 'all'):
        raise Prune()
    check_dump(pdf.hexdump(provide(mode, data), a, b), data, a or 0, n if b is None else b)
    ch.step()
    ch.state((n, mode, rng))
    ch.outcome((n, rng))


def h_documents(ch):
    """Large documents provided in every way, then updated."""
    kind = ch.pick(['objects', 'revisions', 'number', 'links', 'array', 'payload', 'deletions'])
    n = ch.pick([10, 17, 65, 129, 257] if kind != 'revisions' else [10, 17, 33])
    form = ch.pick(['table', 'packed'])
    data, f = SC.document(kind, n, form, form)
    mode = ch.pick(['bytes', 'file', 'on demand', 'path', 'path on demand'])
    doc = load(mode, data)
    ch.note((kind, n, form, mode))
    compare(doc, f.states[-1], f.structural[-1], f.trailers[-1], f.maxnum)
    doc = pdf.update_object(doc, 9, {'/Edited': [n]})
    p = os.path.join(scratch(), 'out.pdf')
    pdf.writefile(doc, p)
    out = open(p, 'rb').read()
    expect(out.startswith(data), 'the original bytes are not preserved')
    again = load(mode, out)
    for k in range(1, f.maxnum + 1):
        if k not in f.structural[-1]:
            g, v = f.states[-1].get(k, (0, None)) if k != 9 else (0, {'/Edited': [n]})
            expect(same(pdf.get_object(again, complex(g, k)), v), lambda: f'object {k} of the written file is {pdf.get_object(again, complex(g, k))!r}, expected {v!r}')
    ref = pdf.update_object(pdf.loads(data), 9, {'/Edited': [n]})
    pdf.writefile(ref, p)
    expect(open(p, 'rb').read() == out, 'the file written depends on the access mode')
    ch.step(f.maxnum)
    ch.state((kind, n, form, mode))
    ch.outcome((kind, n, len(out)))


def harnesses(tier):
    t = tier == 'thorough'
    sd = seeds()
    return [
        Harness('requests', h_requests(14 if t else 10), note='every request on contents of 1 to %d bytes in every access mode' % (14 if t else 10)),
        Harness('hex dump', h_dump(34 if t else 23), note='every range of contents of 1 to %d bytes in every access mode' % (34 if t else 23)),
        Harness('byte values', h_allbytes, note='every byte value'),
        Harness('documents', h_load(sd), note='%d file organisations and histories in every access mode, then saved' % len(sd)),
        Harness('updated documents', h_updated(sd), note='windows around every revision boundary of documents updated in memory'),
        Harness('sizes', h_sizes, note='contents of up to 1 MB, windows at both ends and around powers of two'),
        Harness('large dumps', h_large_dump, note='ranges of contents of up to 100000 bytes'),
        Harness('large documents', h_documents, note='documents large in one dimension in every access mode, then updated')]
