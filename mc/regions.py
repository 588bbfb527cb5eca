"""Region by region writer of PDF files: what a sequential scan of the file must find is known by construction."""
from mc import refpdf as R

WS = b'\x00\t\n\x0c\r '


class Layout:
    """data: bytes so far; regions: expected non-blank regions in order (dicts with kind, pos, last, ...);
    embedded: expected members of object streams; index: per cross-reference structure, its position and entries."""

    def __init__(self, eol=b'\n'):
        self.data = b''
        self.eol = eol
        self.regions = []
        self.embedded = []
        self.tables = []
        self.offs = {}        # (num, gen) -> position of the newest direct object

    def gap(self, b):
        self.data += b

    def region(self, kind, b, **kw):
        r = dict(kind=kind, pos=len(self.data), last=len(self.data) + len(b), **kw)
        self.data += b
        self.regions.append(r)
        return r

    def comment(self, b, eol=None):
        assert b[:1] == b'%'
        r = self.region('COMMENT', b, text=b)
        self.data += self.eol if eol is None else eol
        return r

    def obj(self, num, gen, v, head=b'%d %d obj\n', tail=b'\nendobj', length=None, body=None, seol=b'\n', send=b'\n', old=False):
        b = head % (num, gen)
        if isinstance(v, R.S):
            e = {**v.entries, '/Length': len(v.raw) if length is None else length}
            v = R.S(e, v.raw)
            b += R.ser(e) + b'\nstream' + seol + v.raw + send + b'endstream'
        else:
            b += R.ser(v) if body is None else body
        self.offs[num] = len(self.data)
        return self.region('IND_OBJ', b + tail, num=num, gen=gen, value=v, old=old)

    def objstm(self, num, members, filt=None, sep=b'\n', head='plain', end=b'\n', first=b'', **kw):
        """members: [(num, value)]"""
        body, pairs, starts = b'', [], []
        for k, (n, v) in enumerate(members):
            pairs += [n, len(body)]
            starts.append(len(body))
            body += R.ser(v) + (end if k == len(members) - 1 else sep)
        h = first + b' '.join(b'%d' % x for x in pairs) + b'\n'
        if head == 'lines':
            h = first + b'\r\n'.join(b'%d %d' % (pairs[i], pairs[i + 1]) for i in range(0, len(pairs), 2)) + b'  %h\n'
        raw = h + body
        e = {'/Type': '/ObjStm', '/N': len(members), '/First': len(h)}
        if filt:
            e['/Filter'] = filt
            raw = R.encode(raw, [filt] if isinstance(filt, str) else filt)
        r = self.obj(num, 0, R.S(e, raw), **kw)
        r['members'] = []
        for k, (n, v) in enumerate(members):
            m = dict(env=num, slot=k, num=n, value=v, pos=r['pos'], inner=len(h) + starts[k])
            self.embedded.append(m)
            r['members'].append(m)
        return r

    def table(self, runs, trailer, tail=b' \n', sep=b'\n', kw=b'trailer\n', first=b'xref\n'):
        """runs: [(first number, [(type, a, gen)])]"""
        b = first
        ent = []
        for k, (n0, es) in enumerate(runs):
            b += b'%d %d' % (n0, len(es)) + sep
            for j, (t, a, g) in enumerate(es):
                b += b'%010d %05d %s' % (a, g, t.encode()) + tail
                ent.append((k, j, n0 + j, t, a, g))
        r = self.region('XREFTABLE', b + kw + R.ser(trailer), entries=ent, trailer=trailer, runs=[(n, len(e)) for n, e in runs])
        self.tables.append(r)
        return r

    def xstream(self, num, runs, trailer, w=None, filt=None, predictor=0, index=True, **kw):
        """runs as above, types n, f or c"""
        ent = [(k, j, n0 + j, t, a, g) for k, (n0, es) in enumerate(runs) for j, (t, a, g) in enumerate(es)]
        w2 = max([1] + [(e[4].bit_length() + 7) // 8 for e in ent])
        w3 = max([1] + [(e[5].bit_length() + 7) // 8 for e in ent])
        w = w or [1, 2, 1]
        w = [w[0] or (0 if all(e[3] == 'n' for e in ent) else 1), max(w[1], w2), max(w[2], w3) if w[2] or any(e[5] for e in ent) else 0]
        rows = [('fnc'.index(t).to_bytes(w[0], 'big') if w[0] else b'') + a.to_bytes(w[1], 'big') + (g.to_bytes(w[2], 'big') if w[2] else b'') for _, _, _, t, a, g in ent]
        data = b''.join(rows)
        e = {'/Type': '/XRef', '/W': w, **trailer}
        if index:
            e['/Index'] = [x for n0, es in runs for x in (n0, len(es))]
        if predictor:
            data = R.png_up_encode(data, sum(w))
            e['/DecodeParms'] = {'/Predictor': predictor, '/Columns': sum(w)}
        if filt:
            e['/Filter'] = filt
            data = R.encode(data, [filt] if isinstance(filt, str) else filt)
        r = self.obj(num, 0, R.S(e, data), **kw)
        r.update(entries=ent, trailer=r['value'].entries, xref=True, rows=rows)
        self.tables.append(r)
        return r

    def startxref(self, pos, sep=None):
        return self.region('STARTXREF', b'startxref' + (self.eol if sep is None else sep) + b'%d' % pos, target=pos)

    def eof(self, eol=None):
        return self.comment(b'%%EOF', eol)


def runs_of(ent, split=False):
    """{num: entry} -> [(first, [entries])]"""
    nums = sorted(ent)
    out = []
    for n in nums:
        if out and not split and out[-1][0] + len(out[-1][1]) == n:
            out[-1][1].append(ent[n])
        else:
            out.append((n, [ent[n]]))
    return out
