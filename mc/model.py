"""Reference model of a document under object-level operations, and the driver binding it to the library."""
import pdfsyntax as pdf
from mc import files as F, refpdf as R
from mc.engine import Prune
from mc.common import same, expect, write, strict, norm
from mc.checks.c05 import trail, STRUCT

PAGE_TREE = {1, 2, 3, 4}      # never deleted by object-level operations


def structural(v):
    """Containers, cross-reference streams and the linearization dictionary are file structure, not document content."""
    if isinstance(v, pdf.Stream) or isinstance(v, R.S):
        return v.entries.get('/Type') in ('/XRef', '/ObjStm')
    return isinstance(v, dict) and '/Linearized' in v


def content(doc):
    """{num: (gen, value)} of the content objects in use, as the library reports them."""
    out = {}
    for ref in pdf.in_use(doc):
        v = pdf.get_object(doc, ref)
        if not structural(v):
            n = int(ref.imag)
            expect(n not in out, f'object {n} listed twice in use')
            out[n] = (int(ref.real), v)
    return out


def canon_content(c):
    return {n: (g, R.canon(norm(v))) for n, (g, v) in c.items()}


def ref_content(data):
    """The same through the strict reader (raises Violation when the file is not well formed)."""
    d = strict(data)
    return {n: gv for n, gv in d.live().items() if not structural(gv[1])}, d


def diff(a, b):
    """Readable difference of two contents."""
    ca, cb = canon_content(a), canon_content(b)
    out = []
    for n in sorted(set(ca) | set(cb)):
        if ca.get(n) != cb.get(n):
            out.append(f'object {n}: {a.get(n)!r} instead of {b.get(n)!r}')
    return '; '.join(out)


class Model:
    def __init__(self, f=None):
        self.closed = []           # (live, touched) per closed revision, oldest first
        self.live, self.touched = {}, set()
        self.base = {}
        self.trailer = {}
        self.extra = []            # trailers of the revisions, where they differ
        if f is not None:
            used = set()
            for st, tr, rev in zip(f.states, f.trailers, f.revs):
                self.closed.append((dict(st), set(rev.objs) | set(rev.dels), trail(tr)))
            self.live = dict(f.states[-1])
            self.trailer = trail(f.trailers[-1])
        else:
            self.blank()

    def blank(self):
        y = pdf.PAPER_SIZES['A4']
        live = {1: (0, {'/Type': '/Catalog', '/Pages': 2j}), 2: (0, {'/Type': '/Pages', '/Kids': [3j], '/Count': 1}),
                3: (0, {'/Type': '/Page', '/Parent': 2j, '/MediaBox': [0, 0, *y], '/Resources': {}})}
        self.closed = [(dict(live), {1, 2, 3}, {'/Root': 1j})]
        self.live = dict(live)
        self.trailer = {'/Root': 1j}

    def base_live(self):
        return self.closed[-1][0] if self.closed else {}

    def pending(self):
        """{num: kind} of the open revision."""
        b, out = self.base_live(), {}
        for n in self.touched:
            if n in b and n in self.live:
                out[n] = 'u'
            elif n in b:
                out[n] = 'd'
            elif n in self.live:
                out[n] = 'a'
        return out

    def commit(self):
        if self.pending():
            self.closed.append((dict(self.live), set(self.touched), dict(self.trailer)))
            self.touched = set()

    def rewind(self):
        if self.closed:
            self.live, self.touched, self.trailer = self.closed.pop()
            self.live, self.touched = dict(self.live), set(self.touched)

    def key(self):
        return (repr(sorted(canon_content(self.live).items())), repr(sorted(self.pending().items())), len(self.closed),
                tuple(hash(repr(sorted(canon_content(c[0]).items()))) for c in self.closed))


def fresh(n, k, stream=False):
    if stream:
        return pdf.forge_stream({'/Step': k}, b'content %d of %d' % (k, n))[0], R.S({'/Step': k}, b'content %d of %d' % (k, n))
    if k % 3 == 1 and n != 3:      # empty and zero values
        return [({}, {}), ([], []), (0, 0), (False, False)][(n + k) % 4]
    v = {'/V': k, '/N': [n, 2j, b'(s)'], '/W': {'/X': 1.5}}
    return v, {'/V': k, '/N': [n, 2j, b'(s)'], '/W': {'/X': 1.5}}


def enabled(model, ops):
    """Operations of the alphabet that make sense in this state."""
    out = []
    for op in ops:
        kind = op[0]
        if kind in ('set', 'sets', 'del') and op[1] not in model.live:
            continue
        if kind == 're' and (op[1] in model.live or not any(op[1] in c[0] for c in model.closed) and op[1] not in model.touched):
            continue
        if kind == 'rewind' and not model.closed:
            continue
        out.append(op)
    return out


def lost_trailer(m):
    """A reopened revision that changed nothing but its trailer is not written again."""
    if m.closed and not m.pending() and m.trailer != m.closed[-1][2]:
        raise Prune()


def apply(doc, model, op, k):
    """Perform op on the library document and on the model."""
    kind = op[0]
    if kind in ('set', 'sets', 're'):
        n = op[1]
        lib, ref = fresh(n, k, kind == 'sets')
        if n == 3:      # a page must stay a page
            lib = {**model.live[3][1], '/Step': k}
            ref = dict(lib)
        doc = pdf.update_object(doc, n, lib)
        g = model.live[n][0] if n in model.live else int(pdf.get_iref(doc, n).real)
        model.live[n] = (g, ref)
        model.touched.add(n)
    elif kind == 'del':
        doc = pdf.update_object(doc, op[1], None)
        del model.live[op[1]]
        model.touched.add(op[1])
    elif kind in ('add', 'adds'):
        lib, ref = fresh(0, k, kind == 'adds')
        before = {int(r.imag) for r in pdf.in_use(doc)}
        doc, r = pdf.add_object(doc, lib)
        n = int(r.imag)
        expect(n > 0 and n not in before, f'add_object gave the number {n} of an existing object')
        model.live[n] = (int(r.real), ref)
        model.touched.add(n)
    elif kind == 'big':       # offsets beyond two bytes
        lib, r = pdf.forge_stream({'/Step': k}, b'0123456789abcdef' * 4500)
        doc, r = pdf.add_object(doc, lib)
        model.live[int(r.imag)] = (0, R.S({'/Step': k}, b'0123456789abcdef' * 4500))
        model.touched.add(int(r.imag))
    elif kind == 'many':      # numbers beyond one byte
        for j in range(op[1]):
            doc, r = pdf.add_object(doc, [k, j, 1j])
            model.live[int(r.imag)] = (0, [k, j, 1j])
            model.touched.add(int(r.imag))
    elif kind == 'thin':      # delete every other object beyond 9
        for n in [n for n in sorted(model.live) if n > 9][::2]:
            doc = pdf.update_object(doc, n, None)
            del model.live[n]
            model.touched.add(n)
    elif kind == 'commit':
        doc = pdf.commit(doc)
        model.commit()
    elif kind == 'rewind':
        doc = pdf.rewind(doc)
        model.rewind()
    elif kind == 'reload':
        lost_trailer(model)
        data, _ = write(doc)
        doc = pdf.loads(data)
        model.commit()
        model.touched = set()
    else:
        raise AssertionError(op)
    return doc


def observe_content(doc, model):
    c = content(doc)
    expect(canon_content(c) == canon_content(model.live), lambda: diff(c, model.live))
    for n in range(1, max(list(model.live) + [3]) + 3):
        if n not in model.live:
            v = pdf.get_object(doc, complex(0, n))
            expect(v is None or v == 'null' or structural(v), lambda: f'object {n} is not in use but reads as {v!r}')
    t = trail(pdf.trailer(doc))
    expect(same(t, model.trailer), lambda: f'trailer {t!r}, expected {model.trailer!r}')


def observe_changes(doc, model):
    ch = pdf.changes(doc)
    got = {}
    for ref, kind in ch:
        n = int(ref.imag)
        expect(n not in got, f'object {n} reported twice as changed')
        v = pdf.get_object(doc, ref)
        if kind != 'd' and structural(v):
            continue
        got[n] = kind
        g = model.live[n][0] if n in model.live else model.base_live().get(n, (0,))[0]
        expect(int(ref.real) == g, f'object {n} reported with generation {int(ref.real)}, expected {g}')
    want = model.pending()
    expect(got == want, f'pending changes {got!r}, expected {want!r}')
    return ch


def observe_repr(doc, model):
    want = f'<PDF Doc in revision {len(model.closed)} with {len(pdf.changes(doc))} modified object(s)>'
    expect(repr(doc) == want, f'summary {doc!r}, expected {want!r}')


def start(name):
    """(document, model) of an organisation, or of a blank document."""
    if name == 'blank':
        return pdf.blank(), Model()
    f = F.organisation(name)
    return pdf.loads(f.data), Model(f)


ALL = ['blank'] + list(F.organisations())
# a few organisations that differ most, for deeper sequences
CORE = ['blank', 'table then delete', 'stream then delete', 'packed flate', 'hybrid', 'linearized updated', 'linearized stream', 'gaps', 'recreated']

EDITS = [('set', 9), ('sets', 8), ('del', 9), ('re', 9), ('add',), ('set', 3)]
EDITS_B = [('set', 3), ('sets', 3), ('del', 4), ('re', 4), ('add',), ('adds',), ('set', 4)]


def drive(ch, names, depth, more, each=None, edits=None, edits_b=None):
    """One sequence of at most `depth` operations; (name, document, model)."""
    name = ch.pick(names)
    doc, m = start(name)
    ch.note(f'document: {name}')
    ops = (edits_b or EDITS_B) if name == 'blank' else (edits or EDITS)
    for k in range(depth):
        op = ch.pick([('stop',)] + enabled(m, ops + more))
        if op[0] == 'stop':
            break
        ch.note(op)
        doc = apply(doc, m, op, k)
        ch.step()
        if each:
            each(doc, m)
    lost_trailer(m)
    ch.state((name, m.key()))
    return name, doc, m


def closing(model):
    """The revisions a file written now must have: [(live, trailer)]."""
    out = [(c[0], c[2]) for c in model.closed]
    if model.pending() or not out:
        out.append((model.live, model.trailer))
    return out
