"""Documents that are large in one dimension: objects, revisions, pages, depth of the page tree, object numbers, links, payload."""
import pdfsyntax as pdf
from mc import files as F, trees as T, refpdf as R
from mc.common import BASE

COARSE = [3, 8, 9, 10, 11, 16, 17, 20, 31, 32, 33, 50, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257]
FEW = [9, 10, 11, 16, 17, 33, 64, 65, 100, 129, 257]
KINDS = ['objects', 'revisions', 'pages', 'groups', 'chain', 'number', 'links', 'array', 'payload', 'deletions']


def shape(kind, n):
    """Forest with n pages: flat, in groups of ten, or one page at every level of a chain."""
    if kind == 'groups':
        return tuple(((),) * min(10, n - i) for i in range(0, n, 10))
    if kind == 'chain':
        f = ((),)
        for _ in range(n - 1):
            f = ((), f)
        return f
    return ((),) * n


def tree(kind, n, attrs=True):
    t = T.Tree(shape(kind, n))
    o = t.objs
    font = t.new({'/Type': '/Font', '/Subtype': '/Type1', '/BaseFont': '/Helvetica'})
    if attrs:
        o[t.root].update({'/MediaBox': [0, 0, 612, 792], '/Resources': {'/Font': {'/F1': font}}})
    for i, m in enumerate(t.leaf):
        o[m]['/K'] = [i, t.new({'/Own': i})]
        o[m]['/Contents'] = t.new(R.S({}, b'BT /F1 12 Tf (page %d) Tj ET' % i))
        if attrs and i % 3 == 0:
            o[m]['/MediaBox'] = [0, 0, 100 + i, 200]
        if attrs and i % 4 == 1:
            o[m]['/Rotate'] = 90 * (i % 4)
    for i, m in enumerate(x for x in t.nodes if x not in t.leaf and x != t.root):
        if attrs and i % 2 == 0:
            o[m]['/Rotate'] = 90 * (i % 4)
        if attrs and i % 3 == 1:
            o[m]['/CropBox'] = [0, 0, 50 + i, 60]
    return t


def steps(kind, n, form, form2):
    """Object 9 is a list and object 10.. extra objects; pages of F.page_objs."""
    b = F.page_objs()
    info = {'trailer': {'/Info': 8j}}
    v = F.value
    if kind == 'objects':
        return [({**b, **{i: v(i, 0, i % 8) for i in range(10, 10 + n)}}, (), form, info), ({9: [b'(second)'], 11: v(11, 1)}, (), form2, {})]
    if kind == 'revisions':
        return [(b, (), form, info)] + [({9: [r], 10 + r % 3: v(10 + r % 3, r)}, (), (form, form2)[r % 2], {}) for r in range(1, n)]
    if kind == 'number':
        return [({**b, 10 + n: v(10 + n, 0)}, (), form, {**info, 'index_mode': 1}), ({9: [10j + 1j * n], 10 + n: v(10 + n, 1, 2)}, (), form2, {})]
    if kind == 'links':
        x = {10 + i: {'/Next': complex(0, 11 + i), '/I': i} for i in range(n)}
        x[9 + n]['/Next'] = 10j
        return [({**b, **x, 1: {**b[1], '/Chain': 10j}}, (), form, info), ({9: [complex(0, 9 + n)]}, (), form2, {})]
    if kind == 'array':
        return [({**b, 10: [[i, complex(0, 9)] for i in range(n)], 11: {'/K%d' % i: complex(0, 8) for i in range(n)}, 1: {**b[1], '/A': [10j, 11j]}}, (), form, info),
                ({9: [b'(second)']}, (), form2, {})]
    if kind == 'payload':
        return [({**b, 10: R.S({}, (b'payload\r\n%' * n)[:n * 10]), 11: b'(' + b'long string ' * n + b')', 1: {**b[1], '/A': [10j, 11j]}}, (), form, info), ({9: [b'(second)']}, (), form2, {})]
    if kind == 'deletions':
        return [({**b, **{i: v(i, 0, i % 8) for i in range(10, 10 + n)}}, (), form, info), ({9: [b'(second)']}, tuple(i for i in range(10, 10 + n) if i % 4 != 1), form2, {})]
    raise AssertionError(kind)


def document(kind, n, form='table', form2='table'):
    """(bytes, File or None)."""
    if kind in ('pages', 'groups', 'chain'):
        t = tree(kind, n)
        info = t.new({'/Title': b'(T)'})
        return t.data({'hybrid': 'packed'}.get(form, form), trailer={'/Info': info}), None
    f = F.assemble(steps(kind, n, form, form2), {})
    return f.data, f


def choose(ch, sizes=FEW, kinds=KINDS, forms=('table', 'packed', 'stream')):
    """(kind, n, bytes, File or None)."""
    kind = ch.pick(kinds)
    n = ch.pick(sizes)
    form = ch.pick(list(forms))
    form2 = 'table' if kind in ('pages', 'groups', 'chain') else ch.pick(list(forms)[:2])
    if kind == 'revisions' and n > 40 or kind == 'chain' and n > 33 or kind in ('pages', 'groups') and n > (65 if form == 'table' and kind == 'pages' else 33):
        from mc.engine import Prune
        raise Prune()
    ch.note(f'{kind} {n} {form} {form2}')
    data, f = document(kind, n, form, form2)
    return kind, n, form, data, f
