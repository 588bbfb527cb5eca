"""Independent reference for the PDF file format (ISO 32000): values, strict parser, strict file reader, file writer.

Shares no code with pdfsyntax. Values use plain Python types: dict (keys '/Name'), list, int, float, bool,
str ('/Name' or 'null'), bytes (string with its delimiters, raw), complex(gen, num) references, S streams.
"""
import binascii
import base64
import re
import zlib

WS = b'\x00\t\n\x0c\r '
DELIM = b'()<>[]{}/%'


class S:
    """Stream: entries without interpretation, raw = encoded payload bytes."""

    def __init__(self, entries, raw):
        self.entries = entries
        self.raw = raw

    def __repr__(self):
        return f'S({self.entries!r}, {self.raw!r})'

    def __eq__(self, o):
        return isinstance(o, S) and canon(self) == canon(o)


class PdfError(Exception):
    pass


# ----------------------------------------------------------------------------- canonical form
def canon(v, decoded=True, drop=('/Length',)):
    """Hashable canonical form. Accepts reference values and pdfsyntax values (Stream objects)."""
    if isinstance(v, bool):
        return ('b', v)
    if isinstance(v, int):
        return ('i', v)
    if isinstance(v, float):
        return ('i', int(v)) if v == v and abs(v) != float('inf') and v == int(v) else ('f', v)
    if isinstance(v, complex):
        return ('R', int(v.imag), int(v.real))
    if isinstance(v, str):
        return ('n', v)
    if isinstance(v, (bytes, bytearray)):
        return ('s', bytes(v))
    if isinstance(v, list):
        return ('a',) + tuple(canon(x, decoded, drop) for x in v)
    if isinstance(v, dict):
        return ('d',) + tuple(sorted((k, canon(x, decoded, drop)) for k, x in v.items()))
    if v is None:
        return ('none',)
    if isinstance(v, S):
        e = {k: x for k, x in v.entries.items() if k not in drop}
        return ('S', canon(e, decoded, drop), decode(v.raw, v.entries) if decoded else v.raw)
    if hasattr(v, 'entries') and hasattr(v, 'stream'):
        e = {k: x for k, x in v.entries.items() if k not in drop}
        data = v.stream if decoded else v.encoded
        return ('S', canon(e, decoded, drop), bytes(data) if data is not None else None)
    return ('?', repr(v))


# ----------------------------------------------------------------------------- filters
UNSUPPORTED = '#unsupported'


def filter_list(entries):
    f = entries.get('/Filter')
    if f is None or f == 'null':
        return []
    return [f] if isinstance(f, str) else list(f)


def decode_lenient(raw, entries):
    """Like decode, for data whose end-of-data marker was lost (or whose tail is garbage); None if undecodable."""
    try:
        return decode(raw, entries, lenient=True)
    except Exception:
        return None


def decode(raw, entries, strict=False, lenient=False):
    """Decoded payload, or the tuple (UNSUPPORTED, raw) when a filter is outside Flate/AHex/A85."""
    data = raw
    fl = filter_list(entries)
    pl = entries.get('/DecodeParms')
    if isinstance(pl, dict):
        pl = [pl]
    if pl is None or pl == 'null':
        pl = [None] * len(fl)
    for f, p in zip(fl, pl):
        if f == '/FlateDecode':
            data = zlib.decompress(data)
            if isinstance(p, dict) and int(p.get('/Predictor', 1)) >= 2:
                if int(p['/Predictor']) < 10:
                    raise PdfError('TIFF predictor is outside the reference')
                bits = int(p.get('/Colors', 1)) * int(p.get('/BitsPerComponent', 8))
                data = png_decode(data, (int(p.get('/Columns', 1)) * bits + 7) // 8, (bits + 7) // 8)
        elif f == '/ASCIIHexDecode':
            d = bytes(c for c in data if c not in WS)
            if b'>' not in d and not lenient:
                raise PdfError('ASCIIHex without end marker')
            d = d.split(b'>')[0]
            if len(d) % 2:
                d += b'0'
            data = binascii.unhexlify(d)
        elif f == '/ASCII85Decode':
            d = bytes(c for c in data if c not in WS)
            if d.startswith(b'<~') and not strict:
                d = d[2:]
            if lenient and b'~>' not in d:
                d += b'~>'
            if b'~>' not in d:
                raise PdfError('A85 without end marker')
            data = base64.a85decode(d[:d.index(b'~>')])
        else:
            return (UNSUPPORTED, raw)
    return data


def paeth(a, b, c):
    p = a + b - c
    pa, pb, pc = abs(p - a), abs(p - b), abs(p - c)
    return a if pa <= pb and pa <= pc else (b if pb <= pc else c)


def png_predict(tag, left, up, upleft):
    return [0, left, up, (left + up) // 2, paeth(left, up, upleft)][tag]


def png_decode(data, columns, bpp=1):
    out = b''
    prev = bytes(columns)
    for i in range(0, len(data), columns + 1):
        tag, row = data[i], data[i + 1:i + 1 + columns]
        if tag > 4:
            raise PdfError('bad predictor tag')
        cur = []
        for k, x in enumerate(row):
            left, ul = (cur[k - bpp], prev[k - bpp]) if k >= bpp else (0, 0)
            cur.append((x + png_predict(tag, left, prev[k], ul)) & 255)
        out += bytes(cur)
        prev = bytes(cur)
    return out


def png_encode(data, columns, tags, bpp=1):
    """Rows encoded with the given tags, in turn."""
    out = b''
    prev = bytes(columns)
    for r, i in enumerate(range(0, len(data), columns)):
        row, tag = data[i:i + columns], tags[r % len(tags)]
        enc = []
        for k, x in enumerate(row):
            left, ul = (row[k - bpp], prev[k - bpp]) if k >= bpp else (0, 0)
            enc.append((x - png_predict(tag, left, prev[k], ul)) & 255)
        out += bytes([tag]) + bytes(enc)
        prev = row
    return out


def png_up_encode(data, columns):
    out = b''
    prev = bytes(columns)
    for i in range(0, len(data), columns):
        row = data[i:i + columns]
        out += b'\x02' + bytes((a - b) & 255 for a, b in zip(row, prev))
        prev = row
    return out


def encode(data, filters, variant=0):
    """Encode so that applying `filters` in order decodes: encoders run in reverse order."""
    for f in reversed(filters):
        if f == '/FlateDecode':
            data = zlib.compress(data, 9 if variant == 0 else 1)
        elif f == '/ASCIIHexDecode':
            h = binascii.hexlify(data)
            if variant == 0:
                data = h.upper() + b'>'
            elif variant == 1:
                data = b' '.join(h[i:i + 2] for i in range(0, len(h), 2)) + b'\n>'
            else:
                data = b'\r\n'.join(h[i:i + 3] for i in range(0, len(h), 3)) + b'>\n'
        elif f == '/ASCII85Decode':
            a = base64.a85encode(data) + b'~>'
            if variant == 1:
                a = b'\n'.join(a[i:i + 4] for i in range(0, len(a) - 2, 4)) + b'\n~>' if len(a) > 2 else a
                # re-encode safely: white space anywhere before the marker
                body = base64.a85encode(data)
                a = b'\n'.join(body[i:i + 4] for i in range(0, len(body), 4)) + b'\n~>'
            elif variant == 2:
                a = b'<~' + a
            data = a
        else:
            data = bytes(data)
    return data


# ----------------------------------------------------------------------------- strict parser
def skip_ws(b, i):
    n = len(b)
    while i < n:
        c = b[i]
        if c in WS:
            i += 1
        elif c == 0x25:
            while i < n and b[i] not in b'\r\n':
                i += 1
        else:
            break
    return i


NUM = re.compile(rb'[+-]?(\d+\.?\d*|\.\d+)')


def regular(b, i):
    j = i
    while j < len(b) and b[j] not in WS and b[j] not in DELIM:
        j += 1
    return j


class P:
    """Strict recursive descent parser over one buffer."""

    def __init__(self, b, length_of=None):
        self.b = b
        self.length_of = length_of   # resolver of indirect /Length

    def value(self, i):
        b = self.b
        i = skip_ws(b, i)
        if i >= len(b):
            raise PdfError('unexpected end')
        c = b[i:i + 1]
        if b[i:i + 2] == b'<<':
            return self.dict_(i)
        if c == b'[':
            i += 1
            out = []
            while True:
                i = skip_ws(b, i)
                if b[i:i + 1] == b']':
                    return out, i + 1
                v, i = self.value(i)
                out.append(v)
        if c == b'(':
            depth, j = 0, i
            while True:
                if j >= len(b):
                    raise PdfError('unterminated string')
                d = b[j:j + 1]
                if d == b'\\':
                    j += 2
                    continue
                if d == b'(':
                    depth += 1
                elif d == b')':
                    depth -= 1
                    if depth == 0:
                        return b[i:j + 1], j + 1
                j += 1
        if c == b'<':
            j = b.index(b'>', i)
            if not re.fullmatch(rb'[0-9A-Fa-f\x00\t\n\x0c\r ]*', b[i + 1:j]):
                raise PdfError(f'bad hex string {b[i:j + 1]!r}')
            return b[i:j + 1], j + 1
        if c == b'/':
            j = regular(b, i + 1)
            return b[i:j].decode('latin-1'), j
        j = regular(b, i)
        if j == i:
            raise PdfError(f'unexpected {c!r} at {i}')
        tok = b[i:j]
        if tok == b'true':
            return True, j
        if tok == b'false':
            return False, j
        if tok == b'null':
            return 'null', j
        if NUM.fullmatch(tok):
            if b'.' in tok:
                return float(tok), j
            m = re.compile(rb'[\x00\t\n\x0c\r ]+(\d+)[\x00\t\n\x0c\r ]+R(?=[\x00\t\n\x0c\r ()<>\[\]{}/%]|$)').match(b, j)
            if m and tok.isdigit():
                return complex(int(m.group(1)), int(tok)), m.end()
            return int(tok), j
        raise PdfError(f'unexpected keyword {tok!r} at {i}')

    def dict_(self, i):
        b = self.b
        i += 2
        out = {}
        while True:
            i = skip_ws(b, i)
            if b[i:i + 2] == b'>>':
                return out, i + 2
            k, i = self.value(i)
            if not (isinstance(k, str) and k.startswith('/')):
                raise PdfError(f'bad key {k!r}')
            if k in out:
                raise PdfError(f'duplicate key {k}')
            out[k], i = self.value(i)

    def obj_at(self, i):
        """Indirect object at exactly i: (num, gen, value, end)."""
        b = self.b
        m = re.compile(rb'(\d+)[\x00\t\n\x0c\r ]+(\d+)[\x00\t\n\x0c\r ]+obj(?=[\x00\t\n\x0c\r ()<>\[\]{}/%])').match(b, i)
        if not m:
            raise PdfError(f'no indirect object at {i}: {b[i:i + 20]!r}')
        v, j = self.value(m.end())
        k = skip_ws(b, j)
        if isinstance(v, dict) and b[k:k + 6] == b'stream':
            k += 6
            if b[k:k + 2] == b'\r\n':
                k += 2
            elif b[k:k + 1] == b'\n':
                k += 1
            else:
                raise PdfError('stream keyword not followed by an end of line')
            ln = v.get('/Length')
            if isinstance(ln, complex):
                ln = self.length_of(ln) if self.length_of else None
            if not isinstance(ln, int) or isinstance(ln, bool) or ln < 0:
                raise PdfError(f'bad stream length {v.get("/Length")!r}')
            raw = b[k:k + ln]
            e = k + ln
            m2 = re.compile(rb'(\r\n|\n|\r)?endstream').match(b, e)
            if not m2:
                raise PdfError(f'stream length does not lead to endstream: {b[e - 5:e + 15]!r}')
            v = S(v, raw)
            k = skip_ws(b, m2.end())
        if b[k:k + 6] != b'endobj':
            raise PdfError(f'endobj expected at {k}: {b[k:k + 10]!r}')
        return int(m.group(1)), int(m.group(2)), v, k + 6


def parse(b):
    v, j = P(b).value(0)
    if skip_ws(b, j) != len(b):
        raise PdfError(f'trailing bytes {b[j:]!r}')
    return v


# ----------------------------------------------------------------------------- strict file reader
class RefDoc:
    """Strict reader. `sections` = cross-reference sections from newest to oldest."""

    def __init__(self, data, strict=True):
        self.b = data
        self.strict = strict
        self.p = P(data, self._length_of)
        self.warnings = []
        m = re.match(rb'%PDF-(\d\.\d)', data)
        if not m:
            raise PdfError('no header')
        self.header_version = m.group(1).decode()
        tail = data.rfind(b'startxref')
        m = re.compile(rb'startxref[\r\n ]+(\d+)[\r\n ]+%%EOF[\r\n]*').match(data, tail)
        if tail < 0 or not m:
            raise PdfError('no startxref / %%EOF at the end')
        if strict and m.end() != len(data):
            raise PdfError('bytes after the last %%EOF')
        self.sections = []
        self.entries = {}          # num -> (kind, a, b): newest wins
        self.trailer = None
        self._in_length = 0
        pos = int(m.group(1))
        seen = set()
        while pos is not None:
            if pos in seen:
                raise PdfError('cross-reference loop')
            seen.add(pos)
            sec = self.read_section(pos)
            self.sections.append(sec)
            if self.trailer is None:
                self.trailer = sec['trailer']
            for num, e in sec['entries'].items():
                self.entries.setdefault(num, e)
            hyb = sec['trailer'].get('/XRefStm')
            if hyb is not None and sec['kind'] == 'table':
                sub = self.read_section(hyb)
                sec['hybrid'] = sub
                for num, e in sub['entries'].items():
                    # entries of the table shown as free are looked up in the stream
                    if num not in sec['entries'] or sec['entries'][num][0] == 'f':
                        if self.entries.get(num) is None or self.entries[num] == sec['entries'].get(num):
                            self.entries[num] = e
            prev = sec['trailer'].get('/Prev')
            pos = int(prev) if prev is not None else None

    def _length_of(self, ref):
        e = self.entries.get(int(ref.imag))
        if e and e[0] != 'f':
            return self.get(int(ref.imag))[1]
        return None

    def read_section(self, pos):
        b = self.b
        if b[pos:pos + 4] == b'xref':
            return self.read_table(pos)
        num, gen, v, end = self.p.obj_at(pos)
        if not isinstance(v, S) or v.entries.get('/Type') != '/XRef':
            raise PdfError(f'no cross-reference at {pos}')
        return self.read_stream(pos, num, v)

    def read_table(self, pos):
        b = self.b
        m = re.compile(rb'xref(\r\n|\n|\r)').match(b, pos)
        if not m:
            raise PdfError('bad xref keyword')
        i = m.end()
        entries, subs = {}, []
        while True:
            m = re.compile(rb'(\d+) (\d+) ?(\r\n|\n|\r)').match(b, i)
            if not m:
                break
            first, n = int(m.group(1)), int(m.group(2))
            subs.append((first, n))
            i = m.end()
            for k in range(n):
                e = b[i:i + 20]
                m = re.fullmatch(rb'(\d{10}) (\d{5}) ([nf])( \r| \n|\r\n)', e)
                if not m:
                    raise PdfError(f'cross-reference entry is not the 20 byte form: {e!r}')
                if first + k in entries:
                    raise PdfError(f'object {first + k} listed twice in one section')
                if m.group(3) == b'n':
                    entries[first + k] = ('n', int(m.group(1)), int(m.group(2)))
                else:
                    entries[first + k] = ('f', int(m.group(1)), int(m.group(2)))
                i += 20
        if not subs:
            raise PdfError('empty cross-reference table')
        i = skip_ws(b, i)
        if b[i:i + 7] != b'trailer':
            raise PdfError(f'trailer expected at {i}: {b[i:i + 12]!r}')
        tr, j = self.p.value(i + 7)
        if not isinstance(tr, dict):
            raise PdfError('bad trailer')
        k = skip_ws(b, j)
        if b[k:k + 9] != b'startxref':
            raise PdfError('startxref expected after the trailer')
        return {'kind': 'table', 'pos': pos, 'entries': entries, 'trailer': tr, 'subs': subs}

    def read_stream(self, pos, num, v):
        e = v.entries
        w = e['/W']
        if len(w) != 3:
            raise PdfError('bad /W')
        data = decode(v.raw, e)
        index = e.get('/Index', [0, e['/Size']])
        rec = sum(w)
        entries, i = {}, 0
        for first, n in zip(index[::2], index[1::2]):
            for k in range(n):
                r = data[i:i + rec]
                if len(r) != rec:
                    raise PdfError('cross-reference stream too short')
                f = []
                o = 0
                for x in w:
                    f.append(int.from_bytes(r[o:o + x], 'big'))
                    o += x
                t = f[0] if w[0] else 1
                if first + k in entries:
                    raise PdfError(f'object {first + k} listed twice in one section')
                if t == 0:
                    entries[first + k] = ('f', f[1], f[2])
                elif t == 1:
                    entries[first + k] = ('n', f[1], f[2])
                elif t == 2:
                    entries[first + k] = ('c', f[1], f[2])
                else:
                    entries[first + k] = ('f', 0, 0)
                i += rec
        if i != len(data):
            raise PdfError('cross-reference stream too long')
        return {'kind': 'stream', 'pos': pos, 'entries': entries, 'trailer': e, 'num': num,
                'subs': list(zip(index[::2], index[1::2]))}

    def objstm(self, num):
        e = self.entries.get(num)
        if not e or e[0] != 'n':
            raise PdfError(f'object stream {num} is not a direct object')
        n, g, v, _ = self.p.obj_at(e[1])
        if n != num or not isinstance(v, S) or v.entries.get('/Type') != '/ObjStm':
            raise PdfError(f'{num} is not an object stream')
        data = decode(v.raw, v.entries)
        first, cnt = v.entries['/First'], v.entries['/N']
        head = [int(x) for x in data[:first].split()]
        if len(head) != 2 * cnt:
            raise PdfError(f'object stream {num}: header has {len(head)} numbers, /N is {cnt}')
        out = []
        p = P(data)
        last = -1
        for k in range(cnt):
            onum, off = head[2 * k], head[2 * k + 1]
            if off <= last:
                raise PdfError('object stream offsets not increasing')
            last = off
            val, _ = p.value(first + off)
            out.append((onum, val))
        return out

    def get(self, num):
        """(gen, value) of a live object or None."""
        e = self.entries.get(num)
        if e is None or e[0] == 'f' or num == 0:
            return None
        if e[0] == 'n':
            n, g, v, _ = self.p.obj_at(e[1])
            if n != num:
                raise PdfError(f'entry of object {num} leads to object {n}')
            if g != e[2]:
                raise PdfError(f'entry of object {num} has generation {e[2]}, object has {g}')
            return g, v
        objs = self.objstm(e[1])
        if e[2] >= len(objs) or objs[e[2]][0] != num:
            raise PdfError(f'entry of object {num}: slot {e[2]} of object stream {e[1]} is not that object')
        return 0, objs[e[2]][1]

    def live(self):
        out = {}
        for num in sorted(self.entries):
            r = self.get(num)
            if r is not None:
                out[num] = r
        return out

    def check_all(self):
        """Whole-file consistency of every section."""
        maxnum = max(self.entries) if self.entries else 0
        if self.trailer['/Size'] != maxnum + 1:
            if self.trailer['/Size'] <= maxnum:
                raise PdfError(f"/Size {self.trailer['/Size']} but object {maxnum} is listed")
        if '/Root' not in self.trailer:
            raise PdfError('no /Root')
        z = self.entries.get(0)
        if z is None or z[0] != 'f':
            raise PdfError('object 0 is not a free entry')
        for sec in self.sections:
            if 0 in sec['entries'] and sec['entries'][0][2] not in (65535, 0):
                raise PdfError('object 0 must have generation 65535')
            for num, e in sec['entries'].items():
                if e[0] == 'n':
                    n, g, v, _ = self.p.obj_at(e[1])
                    if (n, g) != (num, e[2]):
                        raise PdfError(f'section at {sec["pos"]}: entry {num} {e} leads to {n} {g}')
                elif e[0] == 'f' and num and e[1] > maxnum:
                    raise PdfError('free list leads outside the table')
        # the free list stays inside free entries and ends
        cur, hops = 0, 0
        while True:
            e = self.entries.get(cur)
            if e is None or e[0] != 'f':
                raise PdfError(f'free list leads to {cur} which is not free')
            cur = e[1]
            hops += 1
            if cur == 0:
                break
            if hops > len(self.entries) + 1:
                raise PdfError('free list loops')
        self.live()


# ----------------------------------------------------------------------------- writer of legal files
def ser(v, sp=b' ', style=0):
    """Reference serialiser. style 0: spaced, 1: compact, 2: newlines and comments."""
    if isinstance(v, bool):
        return b'true' if v else b'false'
    if v is None:
        return b'null'
    if isinstance(v, int):
        return str(v).encode()
    if isinstance(v, float):
        t = f'{v:.6f}'.rstrip('0')
        return t.encode() if not t.endswith('.') else (t + '0').encode()
    if isinstance(v, str):
        return v.encode('latin-1')
    if isinstance(v, bytes):
        return v
    if isinstance(v, complex):
        return f'{int(v.imag)} {int(v.real)} R'.encode()
    if isinstance(v, list):
        parts = [ser(x, sp, style) for x in v]
        if style == 1:
            return b'[' + join_compact(parts) + b']'
        s = b' ' if style == 0 else b'\n'
        return b'[' + s + s.join(parts) + (s if parts else b'') + b']'
    if isinstance(v, dict):
        parts = []
        for k, x in v.items():
            parts += [k.encode('latin-1'), ser(x, sp, style)]
        if style == 1:
            return b'<<' + join_compact(parts) + b'>>'
        s = b' ' if style == 0 else b'\r\n'
        return b'<<' + s + s.join(parts) + (s if parts else b'') + b'>>'
    raise TypeError(type(v))


def join_compact(parts):
    out = b''
    for p in parts:
        if out and (out[-1] not in DELIM or out[-1:] == b'/') and p[0] not in DELIM:
            out += b' '
        out += p
    return out


def obj_bytes(num, gen, v, style=0, eol=b'\n', length=None):
    """One indirect object. length: override of the /Length entry (e.g. a reference)."""
    head = f'{num} {gen} obj'.encode() + eol
    if isinstance(v, S):
        e = dict(v.entries)
        e['/Length'] = length if length is not None else len(v.raw)
        return head + ser(e, style=style) + eol + b'stream' + (eol if eol != b'\r' else b'\r\n') + v.raw + eol + b'endstream' + eol + b'endobj' + eol
    return head + ser(v, style=style) + eol + b'endobj' + eol


class Rev:
    """One revision of a generated file.

    objs: {num: value} added or replaced, dels: numbers deleted, form: 'table' | 'stream' | 'hybrid',
    packed: numbers stored in an object stream (stream/hybrid forms), gens: {num: gen}."""

    def __init__(self, objs, dels=(), form='table', packed=(), gens=None, trailer=None, xnum=None, ostm=None,
                 filt=None, widths=None, order=None, pad=0, predictor=0, index_mode=0, style=None, container=None,
                 lin=None, free=(), top=None, osep=b'\n', ohead='plain', oend=b'\n', tsep=None, split=False, unlisted=False, hide='free'):
        self.__dict__.update(locals())
        del self.__dict__['self']
        self.gens = gens or {}
        self.trailer = trailer or {}


def build(revs, version='1.7', root=1j, style=0, eol=b'\n', info=None, binary=False, lead=b'', lengths=None):
    """Bytes of a file with the given revisions, and the list of ends of each revision."""
    out = b'%PDF-' + version.encode() + eol
    if binary:
        out += b'%\xe2\xe3\xcf\xd3' + eol
    out += lead
    prev = None
    maxnum = 0
    ends = []
    defined = {}
    freed = set()
    for r in revs:
        offs, comp = {}, {}
        st = style if r.style is None else r.style
        objs = dict(r.objs)
        if r.lin:
            assert prev is None and not r.packed and not r.dels
            out, prev, maxnum = linearized(out, r, st, eol, root, info)
            ends.append(len(out))
            defined.update(r.gens)
            continue
        packed = [n for n in r.packed if n in objs and not isinstance(objs[n], S)]
        maxnum = max([maxnum] + list(objs) + list(r.dels) + [r.xnum or 0, r.ostm or 0])
        if r.pad:
            out += b'%' + b'p' * (r.pad - 2) + b'\n' if r.pad >= 2 else b'\n' * r.pad
        order = r.order or sorted(objs)
        for n in order:
            if n in packed:
                continue
            offs[n] = len(out)
            out += obj_bytes(n, r.gens.get(n, 0), objs[n], st, eol, (lengths or {}).get(n))
        if packed:
            if not r.ostm:
                maxnum += 1
                r.ostm = maxnum
            body, head = b'', []
            for k, n in enumerate(packed):
                head += [n, len(body)]
                body += ser(objs[n], style=st) + (r.oend if k == len(packed) - 1 else r.osep)
                comp[n] = (r.ostm, k)
            h = ' '.join(map(str, head)).encode() + b'\n'
            if r.ohead == 'lines':
                h = b'\r\n'.join(f'{head[k]} {head[k + 1]}'.encode() for k in range(0, len(head), 2)) + b'   \n'
            elif r.ohead == 'tight' and ser(objs[packed[0]], style=st)[:1] in (b'<', b'[', b'(', b'/'):
                h = h[:-1]
            e = {'/Type': '/ObjStm', '/N': len(packed), '/First': len(h)}
            raw = h + body
            if r.container:
                e['/Filter'] = r.container
                raw = zlib.compress(raw)
            offs[r.ostm] = len(out)
            out += obj_bytes(r.ostm, 0, S(e, raw), st, eol)
        tr = {'/Root': root}
        if info is not None:
            tr['/Info'] = info
        tr.update(r.trailer)
        if prev is not None:
            tr['/Prev'] = prev
        ent = {n: ('n', offs[n], r.gens.get(n, 0)) for n in offs}
        dels = sorted(r.dels)
        if prev is None or dels or not ent or freed & set(objs):      # 0 heads the list of free entries
            chain = [0] + dels
            for k, n in enumerate(chain):
                nxt = chain[k + 1] if k + 1 < len(chain) else 0
                ent[n] = ('f', nxt, 65535 if n == 0 else r.gens.get(n, defined.get(n, 0) + 1))
        for n, g in r.gens.items():
            defined[n] = g
        freed = freed - set(objs) | set(dels)
        if prev is None:
            # numbering gaps of the first section are listed as free
            lim = max(ent) if r.form == 'table' else max(ent)
            if r.index_mode == 1:
                for n in range(lim):
                    if n not in ent and n not in comp:
                        ent[n] = ('f', 0, 1 if n else 65535)
        if r.form == 'stream':
            if not r.xnum:
                maxnum += 1
                r.xnum = maxnum
            maxnum = max(maxnum, r.xnum)
            for n, (c, k) in comp.items():
                ent[n] = ('c', c, k)
            pos = len(out)
            if not r.unlisted:
                ent[r.xnum] = ('n', pos, 0)
            tr['/Size'] = maxnum + 1
            out += xref_stream(r, ent, tr, st, eol)
        else:
            tr['/Size'] = maxnum + 1
            if r.form == 'hybrid':
                if not r.xnum:
                    maxnum += 1
                    r.xnum = maxnum
                maxnum = max(maxnum, r.xnum)
                tr['/Size'] = maxnum + 1
                pos = len(out)
                xe = {n: ('c', c, k) for n, (c, k) in comp.items()}
                xe[r.xnum] = ('n', pos, 0)
                sub = {'/Size': maxnum + 1}
                if r.hide == 'stream frees':        # deletions known to the stream only
                    for n in dels:
                        xe[n] = ent.pop(n)
                    if 0 in ent:
                        ent[0] = ('f', 0, 65535)
                if r.hide == 'direct':              # direct objects known to the stream only
                    for n in objs:
                        if ent.get(n, 'f')[0] == 'n' and n != 1:
                            xe[n] = ent[n]
                            ent[n] = ('f', 0, 0)
                out += xref_stream(r, xe, sub, st, eol)
                tr['/XRefStm'] = pos
                ent[r.xnum] = ('n', pos, 0)
                for n in comp:
                    if r.hide == 'absent':
                        ent.pop(n, None)
                    else:
                        ent[n] = ('f', 0, 0)     # hidden from old readers
            else:
                assert not comp, 'objects in object streams need a cross-reference stream'
            pos = len(out)
            out += xref_table(ent, eol, r.split)
            out += b'trailer' + (eol if r.tsep is None else r.tsep) + ser(tr, style=st) + eol
        out += b'startxref' + eol + str(pos).encode() + eol + b'%%EOF' + eol
        prev = pos
        ends.append(len(out))
    return out, ends


def linearized(head, r, st, eol, root, info):
    """Linearised single revision: (bytes, position of the first-page cross-reference, biggest number).
    r.lin = numbers of the objects of the first part."""
    objs = dict(r.objs)
    first = [n for n in sorted(objs) if n in r.lin]
    rest = [n for n in sorted(objs) if n not in r.lin]
    mx = max(r.top - 1 if r.top else 0, *objs)
    lnum = mx + 1
    xs = [mx + 2, mx + 3] if r.form == 'stream' else []
    size = (xs[-1] if xs else lnum) + 1
    tr = {'/Root': root}
    if info is not None:
        tr['/Info'] = info
    tr.update(r.trailer)
    pos = {'first': 0, 'main': 0, 'len': 0, 'offs': {n: 0 for n in objs}}
    for _ in range(12):
        offs = {}
        out = head
        offs[lnum] = len(out)
        lin = {'/Linearized': 1, '/L': pos['len'], '/H': [0, 0], '/O': 3, '/E': 0, '/N': 1, '/T': pos['main']}
        out += obj_bytes(lnum, 0, lin, st, eol)
        p1 = len(out)
        old = pos['offs']
        ent1 = {n: ('n', old[n], r.gens.get(n, 0)) for n in first}
        ent1[lnum] = ('n', offs[lnum], 0)
        t1 = dict(tr)
        t1['/Size'] = size
        t1['/Prev'] = pos['main']
        ent2 = {n: ('n', old[n], r.gens.get(n, 0)) for n in rest}
        ent2[0] = ('f', 0, 65535)
        if xs:
            ent1[xs[0]] = ('n', p1, 0)
            one = Rev({}, form='stream', xnum=xs[0], widths=[1, 3, 2])
            out += xref_stream(one, ent1, t1, st, eol)
        else:
            out += xref_table(ent1, eol) + b'trailer' + eol + ser(t1, style=st) + eol
        out += b'startxref' + eol + b'0' + eol + b'%%EOF' + eol
        for n in first + rest:
            offs[n] = len(out)
            out += obj_bytes(n, r.gens.get(n, 0), objs[n], st, eol)
        p2 = len(out)
        if xs:
            ent2[xs[1]] = ('n', p2, 0)
            two = Rev({}, form='stream', xnum=xs[1], widths=[1, 3, 2])
            out += xref_stream(two, ent2, {'/Size': size}, st, eol)
        else:
            out += xref_table(ent2, eol) + b'trailer' + eol + ser({'/Size': max(ent2) + 1}, style=st) + eol
        out += b'startxref' + eol + str(p1).encode() + eol + b'%%EOF' + eol
        new = {'first': p1, 'main': p2, 'len': len(out), 'offs': offs}
        if new == pos:
            r.lnum, r.xnums = lnum, xs
            return out, p1, size - 1
        pos = new
    raise AssertionError('no fixpoint')


def subsections(nums):
    nums = sorted(nums)
    runs = []
    for n in nums:
        if runs and runs[-1][0] + runs[-1][1] == n:
            runs[-1][1] += 1
        else:
            runs.append([n, 1])
    return runs


def xref_table(ent, eol, split=False):
    out = b'xref' + eol
    tail = b' \n' if eol == b'\n' else (b'\r\n' if eol == b'\r\n' else b' \r')
    runs = subsections(ent)
    if split:           # one subsection per object
        runs = [(n, 1) for n in sorted(ent)]
    for first, n in runs:
        out += f'{first} {n}'.encode() + eol
        for k in range(first, first + n):
            t, a, g = ent[k]
            out += f'{a:010d} {g:05d} {t}'.encode() + tail
    return out


def xref_stream(r, ent, tr, style, eol):
    runs = subsections(ent)
    if r.index_mode == 1 and 0 in ent and len(runs) == 1 and runs[0][1] == tr['/Size']:
        index = None
    else:
        index = [x for run in runs for x in run]
    w2 = max(1, (max(e[1] for e in ent.values()).bit_length() + 7) // 8)
    w3 = max(1, (max(e[2] for e in ent.values()).bit_length() + 7) // 8)
    w = r.widths or [1, w2, w3]
    w = [w[0], max(w[1], w2), max(w[2], w3) if w[2] else 0]
    types = {'f': 0, 'n': 1, 'c': 2}
    if w[2] == 0 and any(e[2] for e in ent.values()):
        w[2] = w3
    if w[0] == 0 and any(e[0] != 'n' for e in ent.values()):
        w[0] = 1
    data = b''
    for first, n in runs:
        for k in range(first, first + n):
            t, a, g = ent[k]
            data += types[t].to_bytes(w[0], 'big') if w[0] else b''
            data += a.to_bytes(w[1], 'big')
            data += g.to_bytes(w[2], 'big') if w[2] else b''
    e = {'/Type': '/XRef', '/W': w}
    if index is not None:
        e['/Index'] = index
    e.update(tr)
    if r.predictor:
        data = png_up_encode(data, sum(w))
        e['/DecodeParms'] = {'/Predictor': r.predictor, '/Columns': sum(w)}
    if r.filt:
        e['/Filter'] = r.filt
        data = encode(data, [r.filt] if isinstance(r.filt, str) else r.filt)
    return obj_bytes(r.xnum, 0, S(e, data), style, eol)


def build_raw(objs, raw, version='1.7', root=1j, extra=None, tail=b'\n'):
    """One-revision file with a classic table in which the objects of `raw` {num: (gen, bytes)} are given as bytes."""
    out = b'%PDF-' + version.encode() + b'\n'
    ent = {0: ('f', 0, 65535)}
    for n in sorted(set(objs) | set(raw)):
        g = raw[n][0] if n in raw else 0
        ent[n] = ('n', len(out), g)
        out += raw[n][1] if n in raw else obj_bytes(n, 0, objs[n])
    pos = len(out)
    tr = {'/Root': root, '/Size': max(ent) + 1}
    tr.update(extra or {})
    out += xref_table(ent, b'\n') + b'trailer\n' + ser(tr) + b'\nstartxref\n' + str(pos).encode() + b'\n%%EOF' + tail
    return out
