"""Documents as graphs: canonical form of everything reached from a value, independent of object numbers."""
import pdfsyntax as pdf
from mc import refpdf as R
from mc.common import expect, norm, strict

INHERITABLE = ('/Resources', '/MediaBox', '/CropBox', '/Rotate')
CODING = ('/Filter', '/DecodeParms', '/Length')


class View:
    """Uniform access to a document in memory (library) or in a file (strict reader)."""

    def __init__(self, get, trailer, gens=None):
        self.get = get             # number -> value or None
        self.trailer = trailer
        self.gens = gens           # number -> generation

    def res(self, v):
        hops = 0
        while isinstance(v, complex):
            if self.gens is not None and self.gens.get(int(v.imag)) != int(v.real):
                return None        # no such object
            v = self.get(int(v.imag))
            hops += 1
            expect(hops < 50, 'endless chain of references')
        return None if isinstance(v, str) and v == 'null' else v

    def catalog(self):
        return self.res(self.trailer['/Root'])


def of_doc(doc):
    """The document as the library sees it now."""
    refs = {}
    for r in pdf.in_use(doc):
        refs[int(r.imag)] = r

    def get(n):
        return pdf.get_object(doc, refs[n]) if n in refs else None
    return View(get, pdf.trailer(doc), {n: int(r.real) for n, r in refs.items()})


def of_file(data):
    d = strict(data)
    live = {n: v for n, (g, v) in d.live().items()}
    return View(live.get, d.trailer, {n: g for n, (g, v) in d.live().items()})


def of_objs(objs, trailer):
    return View(objs.get, trailer)


def parts(v):
    """(entries, payload) of a stream of either kind, or None."""
    if isinstance(v, R.S):
        return v.entries, v
    if isinstance(v, pdf.Stream):
        return v.entries, v
    return None


def payload(v):
    if isinstance(v, R.S):
        try:
            d = R.decode(v.raw, v.entries)
        except Exception:
            return ('raw', bytes(v.raw))
        return d if not isinstance(d, tuple) else ('raw', bytes(d[1]))
    if isinstance(v.stream, bytes) and v.stream.startswith(b'#PDFSyntaxException'):
        return ('raw', bytes(v.encoded))
    return bytes(v.stream)


def is_page(v):
    return isinstance(v, dict) and v.get('/Type') == '/Page'


def is_node(v):
    return isinstance(v, dict) and v.get('/Type') == '/Pages'


def canon_graph(view, value, coding=True, skip_top=()):
    """Hashable canonical form of everything reached from value. References become the rank of their first visit.
    The parent of a page is not followed (the tree above a page is not its content). coding=False: filters of decodable streams do not count."""
    ranks = {}
    nodes = []
    todo = []

    def c(v, top=False):
        if isinstance(v, complex):
            n = int(v.imag)
            if view.res(v) is None:
                return 'null'
            if n not in ranks:
                ranks[n] = len(ranks)
                todo.append(n)
            return ('R', ranks[n])
        if v is None or (isinstance(v, str) and v == 'null'):
            return 'null'
        s = parts(v)
        if s:
            p = payload(v)
            drop = ('/Length',) if coding or isinstance(p, tuple) else CODING
            return ('S', d(s[0], drop), p)
        if isinstance(v, dict):
            return d(v, skip_top if top else ())
        if isinstance(v, list):
            return ('a',) + tuple(c(x) for x in v)
        return R.canon(v)

    def d(v, drop):
        if is_page(v):
            drop = (*drop, '/Parent')
        if is_node(v):              # the tree is compared through the list of pages
            return ('node',)
        out = []
        for k in sorted(v):
            if k in drop:
                continue
            x = c(v[k])
            if x != 'null':
                out.append((k, x))
        return ('d',) + tuple(out)
    top = c(value, True)
    i = 0
    while i < len(todo):
        nodes.append(c(view.get(todo[i])))
        i += 1
    return top, tuple(nodes)


def walk(view):
    """Leaves of the page tree: [(reference, effective dictionary)]; checks counts and parents of a well-formed tree."""
    out = []
    seen = set()

    def rec(ref, inherited, parent):
        expect(isinstance(ref, complex), f'kid {ref!r} is not a reference')
        n = int(ref.imag)
        v = view.get(n)
        expect(isinstance(v, dict), lambda: f'node {n} of the page tree is {v!r}')
        expect(n not in seen, f'object {n} is twice in the page tree')
        seen.add(n)
        p = v.get('/Parent')
        if parent is None:
            expect(view.res(p) is None, f'the root of the page tree has a parent {p!r}')
        else:
            expect(isinstance(p, complex) and int(p.imag) == parent, f'node {n} has parent {p!r} instead of {parent}')
        if view.res(v['/Type']) == '/Pages':
            inh = dict(inherited)
            for k in INHERITABLE:
                if view.res(v.get(k)) is not None:
                    inh[k] = v[k]
            total = 0
            for kid in view.res(v['/Kids']):
                total += rec(kid, inh, n)
            expect(view.res(v['/Count']) == total, lambda: f"node {n} counts {view.res(v['/Count'])!r} pages, it has {total}")
            return total
        eff = dict(v)
        for k in inherited:
            if view.res(eff.get(k)) is None:
                eff[k] = inherited[k]
        out.append((ref, eff))
        return 1
    rec(view.catalog()['/Pages'], {}, None)
    return out


def pages(view, coding=True, drop=()):
    """Canonical form of each page with its effective attributes and everything reached from them."""
    return [canon_graph(view, eff, coding, ('/Parent', *drop)) for ref, eff in walk(view)]


def rest(view, coding=True):
    """Canonical form of what is reached from the catalog (page tree apart) and of the information dictionary."""
    return (canon_graph(view, view.catalog(), coding, ('/Pages', '/Version')), canon_graph(view, view.trailer.get('/Info'), coding))


def everything(view, coding=True):
    return {'pages': pages(view, coding), 'catalog and information': rest(view, coding)}


def compare(a, b, what=''):
    for k in a:
        if a[k] == b[k]:
            continue
        if k == 'pages':
            expect(len(a[k]) == len(b[k]), lambda: f'{what}: {len(b[k])} pages instead of {len(a[k])}')
            for i, (x, y) in enumerate(zip(a[k], b[k])):
                expect(x == y, lambda: f'{what}: page {i} is {y!r} instead of {x!r}')
        expect(False, lambda: f'{what}: {k} is {b[k]!r} instead of {a[k]!r}')


def compare_pages(want, got, what=''):
    compare({'pages': want}, {'pages': got}, what)
