"""C24: the sequential file map covers the whole file and finds every object."""
import pdfsyntax as pdf
from pdfsyntax import filestruct as FS
from mc.engine import Harness, Prune
from mc import files as F, refpdf as R
from mc.regions import Layout, runs_of, WS
from mc.common import same, expect, BASE, norm, SIZES

S = R.S


def check_map(sections, lay):
    data = lay.data
    direct = [s for s in sections if isinstance(s[0], int) and isinstance(s[1], int)]
    pos = 0
    for s in direct:
        expect(s[0] == pos, f'region {s[:3]!r} does not start where the previous one ends, at {pos}')
        expect(s[1] > s[0], f'empty region {s[:3]!r}')
        pos = s[1]
    expect(pos == len(data), f'regions end at {pos}, the file at {len(data)}')
    for s in direct:
        if s[2] == 'VOID':
            expect(s[3] == data[s[0]:s[1]] and not s[3].strip(WS), f'blank region {s!r}')
    found = [s for s in direct if s[2] != 'VOID']
    got = [(s[2], s[0]) for s in found]
    want = [(r['kind'], r['pos']) for r in lay.regions]
    expect(got == want, f'regions {got}, expected {want}')
    for s, r in zip(found, lay.regions):
        expect(s[1] >= r['last'] and not data[r['last']:s[1]].strip(WS), f'region {s[:3]!r} should end at {r["last"]}')
        c = s[3]
        if r['kind'] == 'COMMENT':
            expect(c == r['text'], f'comment {c!r}, expected {r["text"]!r}')
        elif r['kind'] == 'STARTXREF':
            expect(int(c) == r['target'], f'start pointer {c!r}, expected {r["target"]}')
        elif r['kind'] == 'IND_OBJ':
            expect((c['o_num'], c['o_gen']) == (r['num'], r['gen']), f'object {c["o_num"]} {c["o_gen"]}, expected {r["num"]} {r["gen"]}')
            expect(not c.get('env_num'), f'object {r["num"]} is not in an object stream')
            expect(same(c['obj'], r['value']), lambda: f'object {r["num"]} at {r["pos"]} is {c["obj"]!r}, expected {r["value"]!r}')
        elif r['kind'] == 'XREFTABLE':
            expect(same(c['trailer'], r['trailer']), f'trailer {c["trailer"]!r}, expected {r["trailer"]!r}')
            subs = [x for x in c['table'] if len(x) == 2]
            expect(subs == r['runs'], f'subsections {subs}, expected {r["runs"]}')
            ent = [(x[0], x[2]) + tuple(x[3]) for x in c['table'] if len(x) != 2]
            w = [((k, j), 'XREF', 'XREF_T', a, n, g, t.encode()) for k, j, n, t, a, g in r['entries']]
            expect(ent == w, f'table entries {ent}, expected {w}')
    # cross-reference streams: one more section each, at the position of the object
    xs = [s for s in sections if s[2] == 'XREFSTREAM']
    want = [r for r in lay.regions if r.get('xref')]
    expect([s[0] for s in xs] == [r['pos'] for r in want], f'cross-reference streams at {[s[0] for s in xs]}, expected {[r["pos"] for r in want]}')
    for s, r in zip(xs, want):
        expect(same(s[3]['trailer'], r['trailer']), f'trailer {s[3]["trailer"]!r}, expected {r["trailer"]!r}')
        ent = [(x[0], x[2]) + tuple(x[3][:6]) for x in s[3]['table']]
        w = []
        for k, j, n, t, a, g in r['entries']:
            if t == 'c':
                w.append(((k, j), 'XREF', 'XREF_S', g, n, 0, b'n', a))
            else:
                w.append(((k, j), 'XREF', 'XREF_S', a, n, g, t.encode(), None))
        expect(ent == w, f'entries {ent}, expected {w}')
        raws = [bytes.fromhex(x[3][6].decode().replace(' ', '')) for x in s[3]['table']]
        expect(raws == r['rows'], f'raw entries {raws}, expected {r["rows"]}')
    # members of object streams
    emb = [s for s in sections if s[2] == 'IND_OBJ' and not isinstance(s[0], int)]
    expect(len(emb) == len(lay.embedded), f'{len(emb)} embedded objects, expected {len(lay.embedded)}')
    for s, m in zip(emb, lay.embedded):
        c = s[3]
        where, inner, slot = s[1]
        expect((c['o_num'], c['env_num'], where, slot, inner) == (m['num'], m['env'], m['pos'], m['slot'], m['inner']),
               f'embedded object {c["o_num"]} in {c["env_num"]} at {s[1]}, expected {m}')
        expect(same(c['obj'], m['value']), f'embedded object {m["num"]} is {c["obj"]!r}, expected {m["value"]!r}')
        expect(m['pos'] < s[0], f'embedded object sorted before its container: {s[:2]}')
    order = [s[0] for s in emb]
    expect(order == sorted(set(order)), f'embedded objects are not in order: {order}')
    expect(len(sections) == len(direct) + len(xs) + len(emb), 'other sections: %r' % [s[:3] for s in sections if s not in direct and s not in xs and s not in emb])


VALUES = [{'/A': [1, {'/B': b'(endobj)'}]}, [1, 2.5, 'true', '/N', 3j], 12, b'(x (5 0 obj) endobj % \\) >> )', '/Name', b'<0aF>',
          {'/K': 'null'}, {}, [], -1.5, 'true', 'null', [7j]]
VALUES = [v if v not in ('true', 'null') else {'true': True, 'null': 'null'}[v] for v in VALUES]
VALUES[1][2] = True
BODIES = [b'1 0 obj', b'endobj\n7 0 obj\n1\nendobj', b'xref\n0 1\ntrailer', b'startxref\n0\n%%EOF', b'endstrea', b'', b'\n', b'\r\n\n', b'stream\n', b'(', b'<<', b'%', b'endstream', b'x\nendstream\nendobj\n', b'\nendstream\nendobj\n8 0 obj\n<<>>\nstream\n']
COMMENTS = [b'%', b'%%', b'%%EOF', b'%PDF-1.3', b'% 5 0 obj', b'%xref', b'%startxref', b'%(', b'%<<', b'%\xe2\xe3\xcf\xd3', b'%>>]', b'%endobj']
GAPS = [b'', b' ', b'\n\n', b'\r\n', b'\x00', b'\t\x0c\r', b' ' * 5 + b'\n']
FORMS = ['table', 'stream', 'packed', 'hybrid']


def piece(ch, lay, num, form, members, small):
    """One region (or pair of regions) of the body."""
    kind = ch.pick(['value', 'stream', 'comment', 'gap', 'objstm', 'length'] if form in ('packed', 'hybrid') else ['value', 'stream', 'comment', 'gap', 'length'])
    if kind == 'value':
        v = ch.pick(VALUES[:4:3] if small else VALUES)
        lay.obj(num, ch.dev([0, 3]), v, head=ch.dev([b'%d %d obj\n', b'%d %d obj ', b'%d  %d\nobj\r\n', b'%d %d obj %%c (\n', b'%d %%c\n%d obj\n']),
                tail=ch.dev([b'\nendobj', b' endobj', b'%c <<\nendobj', b'\r\n\r\nendobj']))
    elif kind == 'stream':
        raw = ch.pick(BODIES[1:15:7] if small else BODIES)
        e = dict(ch.dev([{}, {'/Type': '/XObject'}, {'/L': [b'(endstream)']}]))
        filt = ch.dev([None, '/ASCIIHexDecode'])
        if filt:
            e['/Filter'] = filt
            raw = R.encode(raw, [filt])
        lay.obj(num, 0, S(e, raw), seol=ch.dev([b'\n', b'\r\n']), send=ch.dev([b'\n', b'\r\n', b'\r', b'']), tail=ch.dev([b'\nendobj', b' endobj', b'%c\nendobj']))
    elif kind == 'length':          # the length is another object, before or after
        raw = ch.pick(BODIES[1:15:7] if small else BODIES)
        first = ch.pick([True, False])
        dup = ch.dev([None, 'before', 'after', 'payload'] + (['packed'] if form in ('packed', 'hybrid') else []))
        if dup == 'payload':
            raw = b'%d 0 obj\n2\nendobj\nendstream\n' % (num + 1) + raw
        n = len(raw)

        def other():            # a former definition of the length
            lay.obj(num + 1, 0, n // 2, old=True)
            lay.gap(b'\n')

        def define():
            if dup == 'packed':
                lay.objstm(num + 2, [(num + 1, n)])
                members[num + 1] = ('c', num + 2, 0)
            else:
                lay.obj(num + 1, 0, n, head=ch.dev([b'%d %d obj\n', b'%d %d obj ', b"%d %d\x00obj %%c (\n"]), tail=ch.dev([b"\nendobj", b" endobj", b"%c <<\nendobj", b"\x00\x0cendobj"]))
        if dup == 'before':
            other()
        if first:
            define()
            lay.gap(b'\n')
        lay.obj(num, 0, S({}, raw), length=complex(0, num + 1))
        if not first:
            lay.gap(b'\n')
            define()
        if dup == 'after':
            lay.gap(b'\n')
            other()
    elif kind == 'comment':
        lay.comment(ch.pick(COMMENTS[2:8:3] if small else COMMENTS), ch.dev([None, b'\r', b'\r\n']))
        return kind
    elif kind == 'gap':
        lay.gap(ch.pick(GAPS[2:3] if small else GAPS[1:]))
        return kind
    elif kind == 'objstm':
        n = ch.pick([2] if small else [1, 2, 3])
        vals = [{'/V': num}, [num, {'/K': b'(endobj 5 0 obj)'}], b'(s)', num, '/N', [7j]]
        first = ch.dev(range(len(vals)))
        ms = [(num + 1 + k, vals[(first + k) % len(vals)]) for k in range(n)]
        if ch.dev([0, 1]):
            ms.reverse()
        lay.objstm(num, ms, filt=ch.dev([None, '/FlateDecode', '/ASCIIHexDecode', ['/ASCII85Decode', '/FlateDecode']]), sep=ch.dev([b'\n', b' ', b'\n%c (\n']),
                   end=ch.dev([b'\n', b'', b'\n%c (\n']), head=ch.dev(['plain', 'lines']))
        for k, (m, v) in enumerate(ms):
            members[m] = ('c', num, k)
    lay.gap(ch.dev([b'\n', b'', b' ', b'\r\n', b'\x00'], 'gap') if lay.data[-1:] not in (b'\n', b'\r') else b'')
    return kind


def close(ch, lay, offs, members, form, xnum, prev, root=True, fixed=False):
    """Cross-reference, start pointer and end of a revision."""
    dev = (lambda o: o[0]) if fixed else ch.dev
    tr = {'/Root': 1j}
    if prev is not None:
        tr['/Prev'] = prev
    ent = {n: ('n', p, g) for n, (p, g) in offs.items()}
    if prev is None or dev([0, 1]):
        ent[0] = ('f', 0, 65535)
    free = dev([(), (900,), (900, 901)])
    for n in free:
        ent[n] = ('f', 0, 1)
    tr['/Size'] = max(list(ent) + list(members) + [xnum]) + 1
    tail = {b'\n': b' \n', b'\r\n': b'\r\n', b'\r': b' \r'}[lay.eol]
    if form in ('table', 'hybrid'):
        if form == 'hybrid':
            x = lay.xstream(xnum, runs_of({**members, xnum: ('n', len(lay.data), 0)}), {'/Size': tr['/Size']}, filt=dev([None, '/FlateDecode']))
            lay.gap(b'\n')
            tr['/XRefStm'] = x['pos']
            ent[xnum] = ('n', x['pos'], 0)
            for m in members:
                ent[m] = ('f', 0, 0)
        kw = dev([b'trailer' + lay.eol, b'trailer', b'trailer ', b'trailer\n%c\n', b'trailer\r\n\r\n'])
        runs = runs_of(ent, dev([False, True]))
        empty = dev([0, 1, 2])
        if empty:
            runs.insert(0 if empty == 1 else len(runs), (0, []))
        x = lay.table(runs, tr, tail=tail, sep=dev([lay.eol, b' ' + lay.eol]), kw=kw, first=b'xref' + lay.eol)
    else:
        ent.update(members)
        ent[xnum] = ('n', len(lay.data), 0)
        runs = runs_of(ent, dev([False, True]))
        if dev([0, 1]):
            runs.insert(0, (5, []))
        x = lay.xstream(xnum, runs, tr, w=dev([None, [0, 2, 1], [1, 4, 2], [1, 2, 0], [2, 3, 1]]), filt=dev([None, '/FlateDecode', '/ASCIIHexDecode']), predictor=0)
    lay.gap(dev([lay.eol, b' ', b'\n\n']))
    lay.startxref(x['pos'], dev([None, b'\n', b' \n', b'\r\n']))
    lay.gap(lay.eol)
    return x['pos']


def h_built(length, nrev, forms=FORMS, fixed=False, small=False):
    def h(ch):
        lay = Layout(ch.dev([b'\n', b'\r\n', b'\r']))
        lay.comment(b'%PDF-1.7')
        if ch.dev([0, 1]):
            lay.comment(b'%\xe2\xe3\xcf\xd3')
        prev = None
        num = 10
        for r in range(nrev):
            form = ch.pick(forms)
            before = len(lay.regions)
            if r == 0:
                for n, v in BASE.items():
                    lay.obj(n, 0, v)
                    lay.gap(lay.eol)
            members = {}
            kinds = []
            for k in range(length):
                kinds.append(piece(ch, lay, num, form, members, small))
                num += 10
            offs = {x['num']: (x['pos'], x['gen']) for x in lay.regions[before:] if x['kind'] == 'IND_OBJ' and not x.get('old')}
            if lay.data[-1:] not in WS:
                lay.gap(b'\n')
            prev = close(ch, lay, offs, members, form, num, prev, fixed=fixed)
            num += 10
            lay.eof(lay.eol if r < nrev - 1 else ch.dev([lay.eol, b'', b'\n\n', b'\n ', b'\r\x00']))
            ch.note(f'revision {r}: {form}, {kinds}')
        ch.state(lay.data)
        doc = pdf.loads(lay.data)       # the file is legal
        assert pdf.get_object(doc, 1j) == BASE[1]
        sections = FS.file_object_map(FS.bdata_provider(lay.data))
        ch.step(len(lay.regions) + len(lay.embedded))
        check_map(sections, lay)
        ch.outcome(tuple((s[2], isinstance(s[0], int)) for s in sections))
    return h


def h_org(names):
    """Every organisation: regions are contiguous and contain every object of every revision (reference reader)."""
    def h(ch):
        name = ch.pick(names)
        f = F.organisation(name)
        upto = ch.pick(range(len(f.ends)))
        data = f.data[:f.ends[upto]] + ch.pick([b'', b'\n', b'\r\n \n'])
        if ch.pick([0, 1]):
            data = data.rstrip(b'\r\n \x00')
        ch.note(f'{name}, {upto + 1} revisions')
        ch.state((name, data))
        mode = ch.pick(['bytes', 'file', 'on demand'])
        if mode == 'bytes':
            sections = FS.file_object_map(FS.bdata_provider(data))
        else:
            import io
            sections = FS.file_object_map(FS.bdata_provider(io.BytesIO(data), *(['CONTINUOUS'] if mode == 'on demand' else [])))
        pos = 0
        for s in sections:
            if isinstance(s[0], int) and isinstance(s[1], int):
                expect(s[0] == pos and s[1] > pos, f'region {s[:3]!r} after {pos}')
                pos = s[1]
                if s[2] == 'VOID':
                    expect(not data[s[0]:s[1]].strip(WS), f'not blank: {s!r}')
        expect(pos == len(data), f'regions end at {pos}, the file at {len(data)}')
        ref = R.RefDoc(data, strict=False)
        direct = {(s[3]['o_num'], s[0]): s[3] for s in sections if s[2] == 'IND_OBJ' and isinstance(s[0], int)}
        emb = {(s[3]['o_num'], s[3]['env_num'], s[1][2]): s[3] for s in sections if s[2] == 'IND_OBJ' and not isinstance(s[0], int)}
        n = 0
        for num, e in ref.entries.items():
            if e[0] == 'f':
                continue
            n += 1
            gen, v = ref.live()[num]
            if e[0] == 'n':
                expect((num, e[1]) in direct, f'object {num} at {e[1]} is not listed')
                c = direct[num, e[1]]
                expect(c['o_gen'] == gen, f'generation of {num} is {c["o_gen"]}')
            else:
                expect((num, e[1], e[2]) in emb, f'object {num} in {e[1]} is not listed')
                c = emb[num, e[1], e[2]]
            expect(same(c['obj'], v), f'object {num} is {c["obj"]!r}, expected {v!r}')
        ch.step(n)
        ch.outcome((name, len(sections)))
    return h

def h_sizes(ch):
    """Many regions of one kind, or one long region."""
    what = ch.pick(['values', 'streams', 'comments', 'gap', 'container', 'containers', 'long stream', 'long string', 'long comment', 'array', 'revisions', 'rows', 'number', 'trailer'])
    long = what in ('gap', 'long stream', 'long string', 'long comment', 'number')
    n = ch.pick([x for x in SIZES if x > 8] + ([500, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 5000, 10000, 65536, 100000] if long else [1000] if what in ('container', 'rows') else []))
    if what == 'revisions' and n > 40:
        raise Prune()
    form = ch.pick(FORMS)
    lay = Layout()
    lay.comment(b'%PDF-1.7')
    prev = None
    num = 10
    for r in range(n if what == 'revisions' else 2):
        before = len(lay.regions)
        members = {}
        if r == 0:
            for k, v in BASE.items():
                lay.obj(k, 0, v)
                lay.gap(b'\n')
        else:
            lay.obj(3, 0, {**BASE[3], '/R': r})
            lay.gap(b'\n')
        if r == 0 and what != 'revisions':
            for i in range({'values': n, 'streams': n, 'comments': n, 'containers': n}.get(what, 1)):
                if what == 'values':
                    lay.obj(num, 0, [i, {'/I': b'(endobj %d 0 obj)' % i}])
                elif what == 'streams':
                    lay.obj(num, 0, S({}, b'stream %d\nendobj' % i))
                elif what == 'comments':
                    lay.comment(b'%% comment %d 0 obj' % i)
                elif what == 'gap':
                    lay.gap((b'\n', b' ', b'\x00')[n % 3] * n)
                elif what == 'long stream':
                    lay.obj(num, 0, S({}, (b'0123456\n%' * n)[:n]))
                elif what == 'long string':
                    lay.obj(num, 0, b'(' + (b'a(b)c d' * n)[:n // 7 * 7] + b')')
                elif what == 'long comment':
                    lay.comment(b'%' + (b'x 1 0 obj ' * n)[:n])
                elif what == 'array':
                    lay.obj(num, 0, [[k, complex(0, k)] for k in range(n)])
                elif what == 'number':
                    num += n
                    lay.obj(num, 0, [num])
                elif what in ('container', 'containers') and form in ('packed', 'hybrid'):
                    ms = [(num + 1 + k, {'/V': k}) for k in range(n if what == 'container' else 2)]
                    lay.objstm(num, ms)
                    members.update({m: ('c', num, k) for k, (m, v) in enumerate(ms)})
                    num += len(ms)
                elif what in ('container', 'containers'):
                    raise Prune()
                num += 1
                lay.gap(b'\n')
        offs = {x['num']: (x['pos'], x['gen']) for x in lay.regions[before:] if x['kind'] == 'IND_OBJ'}
        ent = {k: ('n', p, g) for k, (p, g) in offs.items()}
        ent[0] = ('f', 0, 65535)
        if what == 'rows' and r == 0:
            ent.update({num + k: ('f', 0, 1) for k in range(n)})
            num += n
        tr = {'/Root': 1j, '/Size': num + 1}
        if what == 'trailer':
            tr.update({'/K%d' % k: [k, b'(trailer)'] for k in range(n)})
        if prev is not None:
            tr['/Prev'] = prev
        if form in ('table', 'hybrid'):
            if form == 'hybrid':
                x = lay.xstream(num, runs_of({**members, num: ('n', len(lay.data), 0)}), {'/Size': num + 1})
                lay.gap(b'\n')
                tr['/XRefStm'] = x['pos']
                ent[num] = ('n', x['pos'], 0)
                for m in members:
                    ent[m] = ('f', 0, 0)
            x = lay.table(runs_of(ent), tr)
        else:
            ent.update(members)
            ent[num] = ('n', len(lay.data), 0)
            x = lay.xstream(num, runs_of(ent), tr, filt='/FlateDecode')
        lay.gap(b'\n')
        lay.startxref(x['pos'])
        lay.gap(b'\n')
        lay.eof()
        prev = x['pos']
        num += 1
    ch.note((what, n, form))
    doc = pdf.loads(lay.data)
    assert pdf.get_object(doc, 1j) == BASE[1]
    import io
    source = ch.pick(['bytes', 'on demand'])
    fd = FS.bdata_provider(lay.data) if source == 'bytes' else FS.bdata_provider(io.BytesIO(lay.data), 'CONTINUOUS')
    sections = FS.file_object_map(fd)
    check_map(sections, lay)
    ch.step(len(lay.regions))
    ch.state((what, n, form, source))
    ch.outcome((what, form, n))


def harnesses(tier):
    t = tier == 'thorough'
    return [Harness('organisations', h_org(list(F.organisations())), note='every revision of every organisation, every ending, every access mode'),
            Harness('one region', h_built(1, 1), 2 if t else 1, 'every region kind and content in every form, %d separator and format deviations' % (2 if t else 1)),
            Harness('two regions', h_built(2, 1, FORMS if t else ['packed']), 0, 'every pair of regions and contents'),
            Harness('two revisions', h_built(1, 2, small=True), 1 if t else 0, 'one region per revision, every mix of forms'),
            Harness('sizes', h_sizes, note='up to 257 regions of every kind, regions of up to 100000 bytes, 1000 rows or members')
            ] + ([Harness('two regions, variants', h_built(2, 1, small=True), 2, 'pairs of regions, two deviations'),
                  Harness('three regions', h_built(3, 1, ['packed', 'table'], small=True), 1, 'triples of regions, one deviation'),
                  Harness('three revisions', h_built(1, 3, small=True), 0, 'three revisions')] if t else [])
