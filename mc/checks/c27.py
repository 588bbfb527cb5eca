"""C27: the browsable view never lets file content become markup, and its links resolve."""
import contextlib
import io
import os
import re
from html.parser import HTMLParser
from pdfsyntax import cli
from mc.engine import Harness, Prune
from mc import files as F, refpdf as R, graph as G, scale as SC
from mc.regions import Layout, runs_of
from mc.common import expect, scratch, BASE

S = R.S
VOID_TAGS = {'meta', 'br', 'hr', 'img', 'link', 'input'}


class Page(HTMLParser):
    """Skeleton (tags and attributes), balance, text and entries of a page."""

    def __init__(self, text):
        super().__init__(convert_charrefs=False)
        self.skeleton, self.stack, self.problems = [], [], []
        self.ids, self.links, self.blocks = [], [], []
        self.text = ''
        self.block = None
        self.link = None
        self.feed(text)
        self.close()
        if self.stack not in ([], ['html']):         # </html> may be omitted
            self.problems.append(f'elements left open: {self.stack}')

    def handle_starttag(self, tag, attrs):
        self.skeleton.append((tag, tuple(attrs)))
        a = dict(attrs)
        if len(a) != len(attrs):
            self.problems.append(f'attribute given twice in {tag} {attrs}')
        if 'id' in a:
            self.ids.append(a['id'])
        if tag in VOID_TAGS:
            return
        self.stack.append(tag)
        if tag == 'div' and a.get('class') == 'block':
            self.block = dict(id=a.get('id'), depth=len(self.stack), text='', links=[])
            self.blocks.append(self.block)
        if tag == 'a':
            self.link = dict(href=a.get('href', ''), text='', block=self.block)
            self.links.append(self.link)
            if self.block is not None:
                self.block['links'].append(self.link)

    def handle_startendtag(self, tag, attrs):
        self.skeleton.append((tag, tuple(attrs), '/'))

    def handle_endtag(self, tag):
        self.skeleton.append('/' + tag)
        if not self.stack or self.stack[-1] != tag:
            self.problems.append(f'</{tag}> closes {self.stack[-3:]} after {self.text[-60:]!r}')
            return
        if self.block is not None and len(self.stack) == self.block['depth']:
            self.block = None
        self.stack.pop()
        if tag == 'a':
            self.link = None

    def add(self, s):
        self.text += s
        if self.block is not None:
            self.block['text'] += s
        if self.link is not None:
            self.link['text'] += s

    def handle_data(self, data):
        self.add(data)

    def handle_entityref(self, name):
        self.add({'lt': '<', 'gt': '>', 'amp': '&', 'quot': '"', 'apos': "'"}.get(name, f'&{name};'))

    def handle_charref(self, name):
        self.add(chr(int(name[1:], 16) if name[:1] in 'xX' else int(name)))

    def handle_comment(self, data):
        self.problems.append(f'comment {data!r}')

    def handle_pi(self, data):
        self.problems.append(f'processing instruction {data!r}')

    def unknown_decl(self, data):
        self.problems.append(f'declaration {data!r}')


def browse(data, name='in.pdf'):
    p = os.path.join(scratch(), name)
    with open(p, 'wb') as f:
        f.write(data)
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out):
            cli.browse(p)
    finally:
        os.unlink(p)
    return Page(out.getvalue())


def check_links(page):
    expect(not page.problems, lambda: f'malformed page: {page.problems[:3]}')
    dup = sorted({i for i in page.ids if page.ids.count(i) > 1})
    expect(not dup, f'elements with the same id: {dup}')
    ids = set(page.ids)
    for x in page.links:
        if x['href'].startswith('#'):
            expect(x['href'][1:] in ids, f'link {x["href"]} ({x["text"]!r}) leads nowhere')


def skeleton(page):
    """Elements of the page, with positions replaced by ranks (the length of compressed data may change them)."""
    rank = {i: k for k, i in enumerate(page.ids)}

    def attr(k, v):
        if k == 'id' or k == 'href' and v.startswith('#'):
            v = rank.get(v.lstrip('#'), v)
        return k, v
    return [x if isinstance(x, str) else (x[0], tuple(attr(*y) for y in x[1]), x[2:]) for x in page.skeleton]


def entries(page):
    """[(number, generation, block)] of the object entries."""
    out = []
    for b in page.blocks:
        t = b['text'].strip()
        m = re.match(r'(\d+) #(\d+) *\n? *(\d+) (\d+) obj', t)
        if m:
            out.append((int(m[3]), int(m[4]), (int(m[1]), int(m[2])), b))
            continue
        m = re.match(r'(\d{10,})(\d+) (\d+) obj', t)
        if m:
            pos = int(b['id'][3:])
            t = t[len(f'{pos:010d}'):]
            expect(b['text'].strip().startswith(f'{pos:010d}'), f'block {b["id"]} shows {t[:30]!r}')
            m = re.match(r'(\d+) (\d+) obj', t)
            out.append((int(m[1]), int(m[2]), pos, b))
    return out


def check_targets(page, es, pages=None):
    where = {b['id']: n for n, g, _, b in es}
    for x in page.links:
        m = re.fullmatch(r'(\d+) (\d+) R', x['text']) or re.fullmatch(r'#(\d+) (\d+)', x['text'])
        if m and x['href'].startswith('#'):
            t = target_block(page, x['href'][1:])
            expect(t in where and where[t] == int(m[1]), f'link {x["text"]} leads to {x["href"]} which is object {where.get(t)}')


def target_block(page, i):
    """Id of the entry that is, or contains, the element with that id."""
    for b in page.blocks:
        if b['id'] == i:
            return i
    m = re.fullmatch(r'obj(\d+)\..*', i)
    last = None
    for tag in page.skeleton:
        if isinstance(tag, tuple):
            a = dict(tag[1])
            if a.get('class') == 'block':
                last = a.get('id')
            if a.get('id') == i:
                return last
    return None


def h_org(names):
    def h(ch):
        name = ch.pick(names)
        f = F.organisation(name)
        upto = ch.pick(range(len(f.ends)))
        data = f.data[:f.ends[upto]]
        ch.note(f'{name}, {upto + 1} revisions')
        ch.state((name, upto))
        page = browse(data)
        check_links(page)
        es = entries(page)
        ref = R.RefDoc(data, strict=False)
        want = set()
        secs = list(ref.sections)
        for s in list(secs):
            if s.get('hybrid'):
                secs.append(s['hybrid'])
        for s in secs:
            for n, e in s['entries'].items():
                if n and e[0] == 'n':
                    want.add((n, e[1]))
                elif e[0] == 'c':
                    want.add((n, (e[1], e[2])))
        got = [(n, where) for n, g, where, b in es]
        for w in want:
            expect(got.count(w) == 1, f'object {w} has {got.count(w)} entries: {got}')
        direct = len(re.findall(rb'\d+ \d+ obj\b', data))
        expect(len(got) == direct + sum(1 for w in want if isinstance(w[1], tuple)), f'{len(got)} entries, {direct} objects and {len(want)} indexed')
        check_targets(page, es)
        check_sections(f.data, ref, page, es)
        live = ref.live()
        for num, page_ref in enumerate([n for n in (3, 4) if n in live], 1):
            link = [x for x in page.links if x['text'] == str(num) and x['block'] is None and x['href'].startswith('#')]
            ok = [x for x in link if dict((b['id'], n) for n, g, _, b in es).get(target_block(page, x['href'][1:])) == page_ref]
            expect(ok, f'no link to page {num}')
        ch.step(len(page.links) + len(es))
        ch.outcome((name, len(page.skeleton)))
    return h


PAYLOADS = [b'<zq>', b'</pre>', b'"zq=1', b"'zq'", b'&lt;zq', b'<!--', b'--><zq', b'<zq/>', b'&#60;', b'<?zq', b'" zq="', b'&amp', b'</div>', b'<a href=#zq>']
PLACES = ['comment', 'late comment', 'filename', 'string', 'nested string', 'array string', 'key', 'name', 'type name', 'type string', 'subtype', 'stream', 'flate stream',
          'title', 'id', 'js', 'javascript', 'version', 'packed string', 'packed key', 'prev', 'stream entry', 'trailer', 'trailer key', 'unused', 'xref stream entry', 'embedded type', 'filter', 'parent', 'label', 'header', 'count']
NAMEPAY = [b'"zq=1', b"'zq'", b'&lt;zq', b'&zq;', b'"', b"'", b'&', b'"onload="x', b'&#60;', b'&amp']


def regular(p):
    return not any(c in p for c in b'<>()[]{}/% ')


def lit(p):
    return b'(' + p + b')'


def make(place, p, at, form):
    """File with the payload p at the place; at = number of characters before it."""
    pad = b'x' * at
    v = pad + p
    lay = Layout()
    lay.comment(b'%PDF-' + p if place == 'header' else b'%PDF-1.4')
    if place == 'comment':
        lay.comment(b'%' + v)
    cat = {'/Type': '/Catalog', '/Pages': 2j}
    page, pages = dict(BASE[3]), BASE[2]
    ten = {'/Type': '/Font', '/A': 1}
    twelve = {'/Q': [1, 2], '/R': 10j}
    tr = {'/Root': 1j}
    body = b'q 1 0 0 1 0 0 cm Q'
    n = '/' + v.decode('latin-1')
    s = lit(v)
    streamobj = S({'/K': 1}, body)
    xextra = {}
    if place == 'string':
        ten['/S'] = s
    elif place == 'nested string':
        ten['/D'] = {'/E': {'/S': s}}
    elif place == 'array string':
        ten['/L'] = [s, 1, [s, s]]
    elif place == 'key':
        ten[n] = 1
    elif place == 'name':
        ten['/N'] = n
    elif place == 'type name':
        ten['/Type'] = n
    elif place == 'type string':
        ten['/Type'] = s
    elif place == 'subtype':
        ten['/Subtype'] = n
        twelve['/Subtype'] = s
    elif place == 'stream':
        streamobj = S({'/K': 1}, v)
    elif place == 'flate stream':
        streamobj = S({'/Filter': '/FlateDecode'}, R.encode(v, ['/FlateDecode']))
    elif place == 'title':
        ten = {'/Title': s}
        tr['/Info'] = 10j
    elif place == 'id':
        tr['/ID'] = [s, s]
    elif place == 'js':
        ten['/JS'] = s
    elif place == 'javascript':
        ten['/S'] = '/JavaScript'
        ten['/JS'] = [s]
    elif place == 'version':
        cat['/Version'] = '/1.7' + v.decode('latin-1')
    elif place == 'packed string':
        twelve['/S'] = s
    elif place == 'packed key':
        twelve[n] = [s]
    elif place == 'count':
        pages = {**BASE[2], '/Count': s}
    elif place == 'prev':
        ten['/Prev'] = s
        twelve['/Prev'] = n
    elif place == 'stream entry':
        streamobj.entries[n] = s
    elif place == 'trailer':
        tr['/T'] = s
    elif place == 'trailer key':
        tr[n] = n
    elif place == 'xref stream entry':
        xextra = {'/T': s}
        if regular(p):
            xextra[n] = n
    elif place == 'embedded type':
        twelve['/Type'] = s
    elif place == 'filter':
        streamobj.entries['/DecodeParms'] = {'/S': s}
    elif place == 'parent':
        ten['/L'] = [[[s]], {'/S': s, '/T': [s, 1j, s]}]
    elif place == 'label':
        ten['/L'] = [n, n, [n, 1j], n]
    lay.obj(1, 0, cat)
    lay.gap(b'\n')
    lay.obj(2, 0, pages)
    lay.gap(b'\n')
    lay.obj(3, 0, page)
    lay.gap(b'\n')
    lay.obj(10, 0, ten)
    lay.gap(b'\n')
    lay.obj(11, 0, streamobj)
    lay.gap(b'\n')
    members = {}
    if form == 'table':
        lay.obj(12, 0, twelve)
        lay.gap(b'\n')
    else:
        lay.objstm(13, [(12, twelve), (14, [s] if place == 'unused' else [5])])
        lay.gap(b'\n')
        members = {12: ('c', 13, 0), 14: ('c', 13, 1)}
    ent = {x['num']: ('n', x['pos'], x['gen']) for x in lay.regions if x['kind'] == 'IND_OBJ'}
    ent[0] = ('f', 0, 65535)
    if form == 'stream':
        ent.update(members)
        ent[15] = ('n', len(lay.data), 0)
        x = lay.xstream(15, runs_of(ent), {**tr, **xextra, '/Size': 16})
    else:
        if form == 'hybrid':
            y = lay.xstream(15, runs_of({**members, 15: ('n', len(lay.data), 0)}), {'/Size': 16, **xextra})
            ent[15] = ('n', y['pos'], 0)
            lay.gap(b'\n')
            tr['/XRefStm'] = y['pos']
        x = lay.table(runs_of(ent), {**tr, '/Size': 16})
    lay.gap(b'\n')
    lay.startxref(x['pos'])
    lay.gap(b'\n')
    if place == 'late comment':
        lay.comment(b'%' + v)
    lay.eof()
    return lay


NAMES_ONLY = {'key', 'name', 'type name', 'packed key', 'stream entry', 'trailer key', 'version', 'label'}


def h_inject(forms, offsets):
    def h(ch):
        place = ch.pick(PLACES)
        pays = PAYLOADS
        if place in NAMES_ONLY or place in ('subtype', 'prev'):
            pays = NAMEPAY
        elif place == 'header':
            pays = [b'<q>', b'"q=', b"'q'", b'&lt', b'<!-', b'</b', b'&#6', b'<zq>', b'</pre>', b'&lt;zq']
        p = ch.pick(pays)
        form = ch.pick(forms)
        at = ch.pick(offsets)
        name = ['in.pdf', 'in.pdf']
        neutral = b'z' * len(p)
        if place == 'filename':
            if b'/' in p:
                raise Prune()
            name = [f'{"x" * at}{q.decode()}.pdf' for q in (p, neutral)]
        if place == 'version' and (at or form == 'stream') or place == 'header' and at:
            raise Prune()
        ch.note(f'{place}: {p!r} after {at} characters ({form})')
        ch.state((place, p, form, at))
        lay = make(place, p, at, form)
        a = browse(lay.data, name[0])
        b = browse(make(place, neutral, at, form).data, name[1])
        check_links(a)
        sa, sb = skeleton(a), skeleton(b)
        expect(sa == sb, lambda: f'the content changes the elements of the page: {[x for x in zip(sa, sb) if x[0] != x[1]][:3]}')
        got = [(n, w) for n, g, w, _ in entries(a)]
        want = []
        for r in lay.regions:
            if r['kind'] == 'IND_OBJ':
                want.append((r['num'], r['pos']))
                want += [(m['num'], (m['env'], m['slot'])) for m in r.get('members', ())]
        expect(got == want, f'entries {got}, expected {want}')
        ch.step(len(a.links) + len(got))
        shown = p.decode() in a.text
        ch.outcome((place, p, shown))
        if place in ('key', 'name', 'type name', 'packed key', 'stream entry', 'trailer key', 'subtype'):      # never truncated
            expect(shown or p == b"'zq'" and place == 'subtype', lambda: f'{p!r} is not shown as it is after {at} characters')
        if at == 0 and place not in ('header', 'unused', 'embedded type', 'type string') or place == 'filename':
            if not (place == 'xref stream entry' and form == 'table' or 'comment' in place and len(p) > 9):
                expect(shown or b"'" in p and place != 'filename', f'{p!r} is not shown as it is')
    return h


REFS = ['ok', 'missing', 'beyond', 'deleted', 'generation', 'packed', 'self', 'container', 'free0', 'xref', 'prev ref', 'many', 'next', 'prev 1', 'prev 2', 'prev 3', 'shadow']


def h_refs(forms):
    """References of every kind, in objects, arrays, trailers and superseded objects, over two revisions."""
    def h(ch):
        form = [ch.pick(forms), ch.pick(forms)]
        kind = ch.pick(REFS)
        where = ch.pick(['dict', 'array', 'nested', 'trailer', 'old', 'packed', 'stream'])
        order = ch.pick([0, 1])
        ch.note(f'{form} {kind} {where} {order}')
        ref = {'ok': 10j, 'missing': 8j, 'beyond': 500j, 'deleted': 16j, 'generation': 10j + 1, 'packed': 12j, 'self': 10j, 'container': 13j, 'free0': 0j + 0, 'xref': 15j, 'prev ref': 11j, 'many': 2j, 'next': 36j if form[1] != 'table' else 17j, 'shadow': 12j}.get(kind, 10j)
        if kind == 'free0' or kind.startswith('prev ') and where == 'trailer' or kind == 'shadow' and 'hybrid' not in form:
            raise Prune()
        lay = Layout()
        lay.comment(b'%PDF-1.4')
        prev = None
        for r in range(2):
            ten = {'/A': r}
            tr = {'/Root': 1j}
            here = (r == 1) != (where == 'old')
            x = {'/Prev': ref} if kind == 'prev ref' else {'/X': ref}
            if kind in ('prev 1', 'prev 2', 'prev 3'):      # looks like a trailer
                x = {'/Prev': 5, **[{'/X': ref}, {'/Root': 1j}, {'/Root': 1j, '/Size': 3}][int(kind[5]) - 1]}
            twelve, stream = {'/V': r}, S({}, b'content')
            if here:
                if where in ('dict', 'old'):
                    ten.update(x)
                elif where == 'array':
                    ten['/L'] = [ref] * (12 if kind == 'many' else 1)
                elif where == 'nested':
                    ten['/D'] = {'/L': [{'/E': [ref]}, x]}
                elif where == 'trailer':
                    tr['/X'] = ref
                elif where == 'packed':
                    twelve.update(x)
                elif where == 'stream':
                    stream.entries.update(x)
            f = form[r]
            before = len(lay.regions)
            first = 20 * r
            if f in ('table', 'hybrid') and order:
                pass
            objs = {**(BASE if r == 0 else {}), 10: ten, 11: stream, **({16: [0]} if r == 0 else {})}
            if f == 'table' or kind == 'shadow' and f == 'hybrid':
                objs[12] = twelve
            for n in sorted(objs, reverse=bool(order)):
                lay.obj(n, 0, objs[n])
                lay.gap(b'\n')
            members = {}
            if f != 'table':
                lay.objstm(13 + first, [(12, twelve), (14, [5, r])])
                lay.gap(b'\n')
                members = {12: ('c', 13 + first, 0), 14: ('c', 13 + first, 1)}
            ent = {q['num']: ('n', q['pos'], q['gen']) for q in lay.regions[before:] if q['kind'] == 'IND_OBJ'}
            ent[0] = ('f', 16 if r else 0, 65535)
            if r:
                ent[16] = ('f', 0, 1)
            tr['/Size'] = 40
            if prev is not None:
                tr['/Prev'] = prev
            xn = 15 + first
            if f == 'table':
                q = lay.table(runs_of(ent), tr)
            elif f == 'stream':
                ent.update(members)
                ent[xn] = ('n', len(lay.data), 0)
                q = lay.xstream(xn, runs_of(ent), tr)
            else:
                y = lay.xstream(xn, runs_of({**members, xn: ('n', len(lay.data), 0)}), {'/Size': 40})
                ent[xn] = ('n', y['pos'], 0)
                for m in members:
                    ent.setdefault(m, ('f', 0, 0))
                lay.gap(b'\n')
                q = lay.table(runs_of(ent), {**tr, '/XRefStm': y['pos']})
            lay.gap(b'\n')
            lay.startxref(q['pos'])
            lay.gap(b'\n')
            lay.eof()
            prev = q['pos']
        ch.state(lay.data)
        page = browse(lay.data)
        check_links(page)
        es = entries(page)
        got = [(n, w) for n, g, w, _ in es]
        want = []
        for r in lay.regions:
            if r['kind'] == 'IND_OBJ':
                want.append((r['num'], r['pos']))
                want += [(m['num'], (m['env'], m['slot'])) for m in r.get('members', ())]
        expect(got == want, f'entries {got}, expected {want}')
        check_targets(page, es)
        ch.step(len(page.links) + len(got))
        ch.outcome((kind, where, len(page.links)))
    return h

def check_sections(data, ref, page, es):
    """Start pointers, cross-reference entries and links between sections lead where the file says."""
    blocks = {b['id']: b for b in page.blocks}
    where = {}
    for n, g, w, b in es:
        where.setdefault((n, w), b['id'])
    for b in page.blocks:
        if re.match(r'\d{10,}startxref', b['text'].strip()):
            m = re.search(r'startxref\s*(\d+)', b['text'])
            pos = int(b['id'][3:])
            f = re.match(rb'startxref\s*(\d+)', data[pos:pos + 60])
            expect(m and f and int(m[1]) == int(f[1]), lambda: f'start pointer {data[pos:pos + 40]!r} is shown as {b["text"]!r}')
            got = [(x['text'], x['href']) for x in b['links']]
            expect(not int(m[1]) or got == [(m[1], f'#idx{m[1]}')], lambda: f'start pointer {m[1]} shown with the links {got}')
    for s in ref.sections:
        for t in (s, s.get('hybrid')):
            if not t:
                continue
            expect(f'idx{t["pos"]}' in blocks, lambda: f'the section at {t["pos"]} is not shown')
            links = [(x['text'], x['href']) for x in blocks[f'idx{t["pos"]}']['links']]
            want = []
            for n, e in t['entries'].items():
                if n and e[0] == 'n':
                    want.append((f'#{n} {e[2]}', f'#idx{e[1]}'))
                elif e[0] == 'c':
                    want.append((f'#{n} 0', '#' + where[(n, (e[1], e[2]))]))
            got = [x for x in links if x[0][:1] == '#']
            expect(sorted(got) == sorted(want), lambda: f'section at {t["pos"]}: links of the entries {sorted(set(got) ^ set(want))[:4]} differ')
            if type(t['trailer'].get('/Prev')) == int:
                q = t['trailer']['/Prev']
                expect((str(q), f'#idx{q}') in links, lambda: f'section at {t["pos"]}: no link to the previous section {q}')


def check_whole(data, page):
    """Links resolve; every object of every revision has exactly one entry."""
    check_links(page)
    es = entries(page)
    ref = R.RefDoc(data, strict=False)
    want = set()
    secs = list(ref.sections)
    for s in list(secs):
        if s.get('hybrid'):
            secs.append(s['hybrid'])
    for s in secs:
        for n, e in s['entries'].items():
            if n and e[0] == 'n':
                want.add((n, e[1]))
            elif e[0] == 'c':
                want.add((n, (e[1], e[2])))
    got = [(n, where) for n, g, where, b in es]
    expect(len(got) == len(set(got)) and set(got) == want, lambda: f'{len(got)} entries, {len(want)} objects; differing: {sorted(map(str, set(got) ^ want))[:5]}')
    check_targets(page, es)
    check_sections(data, ref, page, es)
    return es


def h_sizes(ch):
    """Large documents: every object listed once, links of the pages and references resolve."""
    kind = ch.pick(['objects', 'revisions', 'pages', 'groups', 'chain', 'number', 'links', 'array', 'payload', 'deletions', 'depth', 'names'])
    n = ch.pick(SC.FEW + [256])
    form = ch.pick(['table', 'packed', 'hybrid'])
    if kind == 'revisions' and n > 40 or kind == 'chain' and n > 70 or kind in ('pages', 'groups', 'chain') and (form == 'hybrid' or form == 'packed' and n > 65):
        raise Prune()
    if kind in ('depth', 'names'):
        v = [b'(<zq>)', 1j]
        for i in range(min(n, 100)):
            v = [v, {'/K%d' % i: [1j]}] if i % 2 else {'/D': v, '/E': 2j}
        objs = {**BASE, 10: v if kind == 'depth' else {'/' + 'N' * n: b'(<zq>' + b'x' * n + b'<zq>)', '/Type': '/' + 'T' * n}}
        data = F.assemble([(objs, (), form, {})], {}).data
        pages = None
    else:
        data, f = SC.document(kind, n, form, form)
        pages = n if kind in ('pages', 'groups', 'chain') else None
    ch.note((kind, n, form, len(data)))
    page = browse(data)
    es = check_whole(data, page)
    expect(not any('zq' in str(x) for x in page.skeleton), 'content became markup')
    if pages:
        where = {b['id']: k for k, g, _, b in es}
        ref = R.RefDoc(data)
        for i, (r, e) in enumerate(G.walk(G.of_file(data))):
            ok = [x for x in page.links if x['text'] == str(i + 1) and x['block'] is None and where.get(target_block(page, x['href'][1:])) == int(r.imag)]
            expect(ok or i >= 10 and not [x for x in page.links if x['text'] == str(i + 1) and x['block'] is None], f'no link to page {i + 1}')
    ch.step(len(es))
    ch.state((kind, n, form))
    ch.outcome((kind, n))


def h_far(ch):
    """Payloads far inside long values."""
    place = ch.pick(['comment', 'string', 'nested string', 'array string', 'key', 'name', 'type name', 'subtype', 'stream', 'flate stream', 'title', 'id', 'js', 'javascript', 'packed string', 'stream entry', 'trailer', 'trailer key',
                     'label', 'parent'])
    p = ch.pick([b'<zq>', b'&lt;zq', b'"zq=1'] if place not in NAMES_ONLY and place != 'subtype' else [b'"zq=1', b'&lt;zq'])
    at = ch.pick([40, 50, 60, 63, 64, 65, 70, 71, 79, 80, 81, 99, 100, 101, 127, 128, 199, 200, 255, 256, 257, 500, 511, 512, 1000, 1023, 1024, 4096, 5000])
    form = ch.pick(['table', 'stream'])
    ch.note(f'{place}: {p!r} after {at} characters ({form})')
    a = browse(make(place, p, at, form).data)
    b = browse(make(place, b'z' * len(p), at, form).data)
    check_links(a)
    sa, sb = skeleton(a), skeleton(b)
    expect(sa == sb, lambda: f'the content changes the elements of the page: {[x for x in zip(sa, sb) if x[0] != x[1]][:3]}')
    ch.step()
    ch.state((place, p, at, form))
    ch.outcome((place, p))


def h_history(kind):
    """Documents whose pages are rewritten, added and removed over several revisions: links lead to the definition in force."""
    def h(ch):
        base = ch.pick(['table', 'packed', 'hybrid'])
        later = ch.pick(['table', 'stream', 'packed', 'hybrid'])
        acts = [ch.pick(['page', 'add', 'other', 'remove', 'nodes', 'catalog', 'nothing']) for _ in range(3 if kind == 'deep' else 2)]
        if 'nothing' in acts[:-1] or later == 'hybrid' and kind == 'deep' and acts[0] == acts[1]:
            raise Prune()
        objs = F.page_objs({10: {'/P': 3j, '/L': [4j, 9j], '/C': 1j}})
        steps = [(dict(objs), (), base, {'trailer': {'/Info': 10j}})]
        order = [3, 4]
        for r, a in enumerate(acts):
            ch_, gone = {}, ()
            if a == 'page':
                ch_[order[0]] = {**objs.get(order[0], {'/Type': '/Page', '/Parent': 2j}), '/New': r, '/Q': 10j}
            elif a == 'add':
                ch_[20 + r] = {'/Type': '/Page', '/Parent': 2j, '/R': r}
                order = order + [20 + r]
            elif a == 'remove':
                if len(order) < 2:
                    raise Prune()
                gone = (order[-1],)
                order = order[:-1]
            elif a == 'other':
                ch_[10] = {'/P': complex(0, order[0]), '/L': [complex(0, order[-1]), 9j], '/R': r, '/C': 1j}
            elif a == 'nodes':
                order = order[::-1]
            elif a == 'catalog':
                ch_[1] = {**objs[1], '/R': r}
            if a in ('add', 'remove', 'nodes'):
                ch_[2] = {**objs[2], '/Kids': [complex(0, n) for n in order], '/Count': len(order)}
                if a == 'remove':
                    ch_[10] = {'/P': complex(0, order[0]), '/L': [9j], '/R': r}
            steps.append((ch_, gone, later, {}))
        f = F.assemble(steps, {})
        ch.note((base, later, acts))
        ch.state((base, later, tuple(acts)))
        page = browse(f.data)
        check_links(page)
        es = entries(page)
        check_targets(page, es)
        ref = R.RefDoc(f.data)
        check_sections(f.data, ref, page, es)
        # the entry in force of every object: position of a direct object, (container, slot) of a packed one
        force = ref.entries
        block = {}
        for n, g, w, b in es:
            e = force.get(n)
            if e and (e[0] == 'n' and w == e[1] or e[0] == 'c' and w == (e[1], e[2])):
                block[n] = b['id']
        live = {n: v for n, (g, v) in ref.live().items()}
        for i, n in enumerate(order):
            at = [x for x in page.links if x['text'] == str(i + 1) and x['block'] is None and x['href'].startswith('#obj')]
            expect(at and all(target_block(page, x['href'][1:]) == block[n] for x in at), lambda: f'page {i + 1} (object {n}) links to {[x["href"] for x in at]}, defined at {block[n]}')
        used = {}
        for n, b in block.items():
            if n in f.structural[-1]:
                continue
            bl = next(x for x in page.blocks if x['id'] == b)
            for x in bl['links']:
                m = re.fullmatch(r'(\d+) (\d+) R', x['text'])
                if m:
                    expect(x['href'][1:] == block.get(int(m[1])), lambda: f'{x["text"]} in object {n} leads to {x["href"]}, the object in force is at {block.get(int(m[1]))}')
                    used.setdefault(int(m[1]), set()).add(n)
            refs = {int(z.imag) for z in walk(live[n])}
            expect({k for k, v in used.items() if n in v} == {z for z in refs if z in live}, lambda: f'object {n} shows links to {[k for k, v in used.items() if n in v]}, it refers to {refs}')
        for n, b in block.items():
            if n in f.structural[-1]:
                continue
            bl = next(x for x in page.blocks if x['id'] == b)
            got = {int(x['text']) for x in bl['links'] if re.fullmatch(r'\d+', x['text'])} - set(f.structural[-1])
            expect(got == used.get(n, set()), lambda: f'object {n} is shown as used in {got}, it is used in {used.get(n, set())}')
        # a trailer leads to what its revision has in force (a cross-reference stream, which stays a live object, may lead to what a later one has)
        blocks = {b['id']: b for b in page.blocks}
        revs = [R.RefDoc(f.data[:end]) for end in f.ends]
        ats = []
        for rev in revs:
            at = {}
            for n, g, w, b in es:
                e = rev.entries.get(n)
                if e and (e[0] == 'n' and w == e[1] or e[0] == 'c' and w == (e[1], e[2])):
                    at[n] = b['id']
            ats.append(at)
        for r, rev in enumerate(revs):
            pos = rev.sections[0]['pos']
            table = f.data[pos:pos + 4] == b'xref'
            shown = {int(x['text'].split()[0]): x['href'][1:] for x in blocks[f'idx{pos}']['links'] if re.fullmatch(r'\d+ \d+ R', x['text'])}
            expect(set(shown) == {1, 10}, lambda: f'the trailer of revision {r} shows the links {shown}')
            for n in shown:
                want = {at[n] for at in (ats[r:r + 1] if table else ats[r:])}
                expect(shown[n] in want, lambda: f'the trailer of revision {r} leads from {n} 0 R to {shown[n]}, defined at {want}')
        ch.step(len(page.links))
        ch.outcome((base, later, len(order)))
    return h


def walk(v):
    if isinstance(v, complex):
        yield v
    elif isinstance(v, dict):
        for x in v.values():
            yield from walk(x)
    elif isinstance(v, (list, tuple)):
        for x in v:
            yield from walk(x)
    elif hasattr(v, 'entries'):
        yield from walk(v.entries)


def harnesses(tier):
    t = tier == 'thorough'
    return [Harness('organisations', h_org(list(F.organisations())), note='every revision of every organisation'),
            Harness('references', h_refs(['table', 'stream', 'hybrid']), note='every kind of reference at every place, over two revisions of every form'),
            Harness('injection', h_inject(['table', 'stream', 'hybrid'], list(range(0, 64)) if t else [0, 1, 5, 22, 27, 29]),
                    note='every payload at every place of the file, at every distance from the truncation points'),
            Harness('histories', h_history('deep' if t else 'two'), note='pages rewritten, added and removed over the revisions: links lead to the definition in force'),
            Harness('sizes', h_sizes, note='documents large in one dimension'),
            Harness('far injection', h_far, note='payloads after 40 to 5000 characters')]
