"""C07: saving only appends, and cutting the appended part restores the earlier file."""
import pdfsyntax as pdf
from mc.engine import Harness
from mc import files as F, model as M, refpdf as R, scale as S
from mc.checks.c05 import trail
from mc.common import expect, write, same


def starts(data, base, what):
    if data[:len(base)] != base:
        k = next((i for i in range(min(len(data), len(base))) if data[i] != base[i]), min(len(data), len(base)))
        expect(False, f'{what}: byte {k} of {len(base)} differs')


def cut(data):
    """Positions just after each end-of-file line."""
    out, i = [], 0
    while (i := data.find(b'%%EOF', i)) >= 0:
        i += 5
        while i < len(data) and data[i:i + 1] in (b'\r', b'\n'):
            i += 1
        out.append(i)
    return out


def check_history(data, revs, first):
    """Truncations of data at the end of its last revisions give those revisions. revs: [(live, trailer)]."""
    ends = cut(data)
    expect(ends[-1] == len(data), 'the written file does not stop at its end-of-file line')
    lin = len(ends) - len(revs)          # a linearized file has one more
    for r in range(first, len(revs)):
        part = data[:ends[r + lin]]
        live, tr = revs[r]
        d = pdf.loads(part)
        c = M.content(d)
        expect(M.canon_content(c) == M.canon_content(live), lambda: f'cut at revision {r}: ' + M.diff(c, live))
        expect(same(trail(pdf.trailer(d)), tr), lambda: f'cut at revision {r}: trailer {pdf.trailer(d)!r}, expected {tr!r}')
        expect(pdf.updates(d) == r + 1, lambda: f'cut at revision {r}: {pdf.updates(d)} revisions')
        c, _ = M.ref_content(part)
        expect(M.canon_content(c) == M.canon_content(live), lambda: f'cut at revision {r}, strict reader: ' + M.diff(c, live))


def h(depth, names, more, edits=None):
    def run(ch):
        name = ch.pick(names)
        ch.note(f'document: {name}')
        doc, m = M.start(name)
        ends = F.organisation(name).ends if name != 'blank' else []
        data = F.organisation(name).data if name != 'blank' else b''
        # keep[i]: bytes which the file must keep as long as revision i is closed
        keep = [data[:e] for e in ends]
        first = 0
        for k in range(depth):
            op = ch.pick([('stop',)] + M.enabled(m, (edits or (M.EDITS_B if name == 'blank' else M.EDITS)) + more))
            if op[0] == 'stop':
                break
            ch.note(op)
            if op[0] == 'reload':
                revs = M.closing(m)
                data, _ = write(doc)
                starts(data, keep[-1] if keep else b'', 'written file')
                marks = cut(data)
                lin = len(marks) - len(revs)
                keep = [data[:e] for e in marks[lin:]]
            doc = M.apply(doc, m, op, k)
            if op[0] == 'rewind':
                keep = keep[:len(m.closed)]
                first = min(first, len(m.closed))
            ch.step()
        revs = M.closing(m)
        data, doc2 = write(doc)
        starts(data, keep[-1] if keep else b'', 'written file')
        if len(keep) == len(revs):
            expect(data == keep[-1], f'{len(data) - len(keep[-1])} bytes were appended without any change')
        check_history(data, revs, 0)
        again, _ = write(doc2)
        expect(again == data, 'writing twice gives other bytes')
        again, _ = write(pdf.loads(data))
        expect(again == data, 'loading and writing gives other bytes')
        ch.state((name, m.key()))
        ch.outcome((name, len(revs), len(data)))
    return run


def h_unmodified(ch):
    """Files of every organisation, with different endings, written as they are."""
    name = ch.pick(list(F.organisations()))
    f = F.organisation(name)
    r = ch.pick(range(len(f.ends)))
    tail = ch.pick([b'', b'\n', b'\r\n\r\n', None])
    data = f.data[:f.ends[r]]
    if tail is not None:
        data = data.rstrip(b'\r\n') + tail
    ch.note((name, r, tail))
    doc = pdf.loads(data)
    out, _ = write(doc)
    expect(out == data, lambda: f'{len(out)} bytes written for {len(data)}')
    # something appended after a file without final line ending
    doc = pdf.update_object(doc, 9, [b'(x)']) if 9 in f.states[r] else pdf.add_object(doc, [b'(x)'])[0]
    out, _ = write(doc)
    starts(out, data, 'appended')
    st = dict(f.states[r])
    n = 9 if 9 in st else max(set(M.content(doc)) - set(st))
    st[n] = (st[n][0] if n in st else 0, [b'(x)'])
    c, _ = M.ref_content(out)
    expect(M.canon_content(c) == M.canon_content(st), lambda: M.diff(c, st))
    ch.step(2)
    ch.state((name, r, tail))
    ch.outcome(len(out))

def h_sizes(ch):
    """Large documents, and many revisions appended in a row."""
    kind, n, form, data, f = S.choose(ch)
    doc = pdf.loads(data)
    revs = [(M.content(doc), trail(pdf.trailer(doc)))]
    base = pdf.updates(doc)
    written = [data]
    for k in range(3 if n > 20 else n):
        doc, r = pdf.add_object(doc, [k, b'(added)'])
        if k % 3 == 1:
            doc = pdf.update_object(doc, int(last.imag), None)
        last = r
        if ch.pick(['memory', 'reload'] if k == 0 else ['memory']) == 'reload':
            out, _ = write(doc)
            starts(out, written[-1], 'written file')
            doc = pdf.loads(out)
            written.append(out)
        else:
            doc = pdf.commit(doc)
        revs.append((M.content(doc), trail(pdf.trailer(doc))))
        ch.step()
    out, _ = write(doc)
    starts(out, written[-1], 'written file')
    marks = cut(out)
    for i, (c, tr) in enumerate(revs):
        d = pdf.loads(out[:marks[base - 1 + i - len(revs) + 1 + (len(marks) - base)]])
        got = M.content(d)
        expect(M.canon_content(got) == M.canon_content(c), lambda: f'cut after {i} of {len(revs) - 1} saves: ' + M.diff(got, c))
        expect(same(trail(pdf.trailer(d)), tr), lambda: f'cut after {i} saves: trailer {pdf.trailer(d)!r}')
        expect(pdf.updates(d) == base + i, lambda: f'cut after {i} saves: {pdf.updates(d)} revisions')
    again, _ = write(pdf.loads(out))
    expect(again == out, 'loading and writing gives other bytes')
    M.ref_content(out)
    ch.state((kind, n, form))
    ch.outcome((kind, n, len(out)))


def harnesses(tier):
    t = tier == 'thorough'
    more = [('commit',), ('reload',)]
    return [Harness('unmodified', h_unmodified, note='every revision of every organisation, 4 endings'),
            Harness('appended', h(4 if t else 2, M.ALL, more), note='edits, commits and reloads on every organisation'),
            Harness('appended, deeper', h(5 if t else 3, M.CORE, more), note='deeper on the core organisations'),
            Harness('commits', h(6 if t else 5, ['blank', 'table', 'stream', 'packed flate', 'linearized stream'], more, [('add',), ('del', 9), ('set', 1)]),
                    note='many revisions'),
            Harness('rewound', h(5 if t else 4, M.CORE if t else ['blank', 'table then delete', 'packed flate', 'linearized stream', 'linearized updated'], more + [('rewind',)], [('set', 9), ('add',)]), note='revisions reopened'),
            Harness('sizes', h_sizes, note='documents large in one dimension, up to 17 revisions appended')]
