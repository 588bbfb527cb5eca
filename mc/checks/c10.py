"""C10: operations never modify the document they are given."""
import pdfsyntax as pdf
from mc.engine import Harness, Prune
from mc import files as F, model as M, refpdf as R, scale as S
from mc.checks import c08
from mc.common import expect, write

OPS = c08.PAGE_OPS + [('commit',), ('rewind',), ('write',), ('read',), ('iter',), ('text',), ('fonts',), ('forceph',), ('nofilter',), ('group',),
                      ('mutate',), ('structure',)]
SMALL = [('rotateall',), ('annot', 0), ('remove', 0), ('self',), ('squash',), ('compress',), ('add',), ('del', 9), ('set', 9), ('commit',), ('rewind',), ('write',), ('force',), ('filter',), ('group',)]


def scribble(v):
    """Overwrite everything reachable in a value handed out by the library."""
    if isinstance(v, pdf.Stream):
        scribble(v.entries)
        v.stream = b'scribbled'
        v.encoded = b'scribbled'
    elif isinstance(v, dict):
        for x in list(v.values()):
            scribble(x)
        v['/Scribble'] = 1
    elif isinstance(v, list):
        for x in v:
            scribble(x)
        v.append('/Scribble')


def op(doc, o, k):
    """The documents that result from an operation (several for an iteration)."""
    kind = o[0]
    if kind == 'write':
        return [write(doc)[1]]
    if kind == 'iter':
        return list(doc)
    if kind == 'forceph':
        return [pdf.force_xref_stream(doc, True, None)]
    if kind == 'nofilter':
        return [pdf.apply_filter(doc, pdf.list_streams(doc), '')]
    if kind == 'group':
        n = int(pdf.catalog(doc)[1].imag)
        return [pdf.group_obj_into_stream(pdf.force_xref_stream(pdf.update_object(doc, n, {**pdf.catalog(doc)[0], '/K': k})))]
    if kind == 'read':
        for r in pdf.in_use(doc):
            pdf.get_object(doc, r)
        pdf.pages(doc), pdf.changes(doc), repr(doc), pdf.metadata(doc), pdf.version(doc), len(doc)
        return []
    if kind == 'mutate':
        for r in pdf.in_use(doc):
            scribble(pdf.get_object(doc, r))
        scribble(pdf.pages(doc))
        scribble(pdf.trailer(doc))
        scribble(pdf.catalog(doc)[0])
        scribble(pdf.page_layouts(doc))
        for r, inh in pdf.flat_page_tree(doc):
            scribble(inh)
        return []
    if kind == 'structure':
        pdf.structure(doc)
        return []
    if kind == 'text':
        for p in range(len(doc)):
            pdf.extract_page_text(doc, p)
        return []
    if kind == 'fonts':
        pdf.fonts(doc)
        return []
    return [c08.page_op(doc, o, k)]


def enabled(doc, ops, name):
    out = []
    for o in c08.page_enabled(doc, ops):
        if o[0] == 'rewind' and name == 'empty update':
            continue
        if o[0] in ('text', 'fonts') and name == 'blank':
            continue
        out.append(o)
    return out


def fingerprint(doc):
    look = {'repr': repr(doc), 'changes': pdf.changes(doc), 'updates': pdf.updates(doc), 'in use': pdf.in_use(doc)}
    look.update(c08.look(doc))
    look['trailer (raw)'] = R.canon(M.norm(pdf.trailer(doc)))
    data, _ = write(doc)
    look['written'] = data
    look['rewound'] = c08.look(pdf.rewind(doc)) if pdf.updates(doc) else None
    return look


_TWIN = {}


def twin(name, ops):
    """Fingerprints of the documents made by the last of ops, each made afresh for this single observation."""
    key = (name, tuple(ops))
    if key not in _TWIN:
        if len(_TWIN) > 4000:
            _TWIN.clear()
        n = len(chain(name, ops)[-1])
        out = []
        for i in range(n):
            out.append(fingerprint(chain(name, ops)[-1][i]))
        _TWIN[key] = out
    return _TWIN[key]


def chain(name, ops):
    docs = [[M.start(name)[0]]]
    cur = docs[0][0]
    for k, o in enumerate(ops):
        new = op(cur, o, k)
        docs.append(new)
        if new:
            cur = new[-1]
    return docs


def h(depth, names, ops):
    def run(ch):
        name = ch.pick(names)
        ch.note(f'document: {name}')
        cur = M.start(name)[0]
        docs = [[cur]]
        done = []
        for k in range(depth):
            o = ch.pick(enabled(cur, ops, name)) if k == 0 else ch.pick([('stop',)] + enabled(cur, ops, name))
            if o[0] == 'stop':
                break
            ch.note(o)
            done.append(o)
            new = op(cur, o, k)
            docs.append(new)
            if new:
                cur = new[-1]
            ch.step()
        for i in range(len(docs) - 1):
            want = twin(name, done[:i])
            for d, w in zip(docs[i], want):
                f = fingerprint(d)
                for k in w:
                    expect(f[k] == w[k], lambda: f'{k} of the document after {done[:i]} was {w[k]!r} and became {f[k]!r} after {done[i:]}')
                ch.state((name, repr(w)))
        ch.outcome((name, len(docs[-1])))
    return run

def h_sizes(ch):
    """Every operation on documents that are large in one dimension."""
    kind, n, form, data, f = S.choose(ch, [10, 17, 65], forms=('table', 'packed'))
    doc = pdf.loads(data)
    pend = ch.pick([False, True])
    if pend:
        doc = c08.big_op(doc, ('many',), 0, 3)
    want = fingerprint(c08.big_op(pdf.loads(data), ('many',), 0, 3) if pend else pdf.loads(data))
    o = ch.pick(c08.big_enabled(doc, kind) + [('write',), ('iter',), ('read',), ('mutate',), ('structure',), ('group',), ('rewind',)])
    if o[0] == 'iter' and len(doc) > 20:
        raise Prune()
    ch.note(o)
    if o[0] in ('many', 'set all', 'del all'):
        c08.big_op(doc, o, 1, n)
    else:
        op(doc, o, 1)
    got = fingerprint(doc)
    ch.step()
    for k in want:
        expect(got[k] == want[k], lambda: f'{k} of the document given to {o[0]} was {str(want[k])[:300]} and became {str(got[k])[:300]}')
    ch.state((kind, n, form, o, pend))
    ch.outcome((kind, n, o))


def harnesses(tier):
    t = tier == 'thorough'
    return [Harness('every organisation', h(3 if t else 2, M.ALL if t else M.CORE + ['big offsets', 'empty update', 'many revisions', 'unlisted xref stream', 'generations'], OPS), note='every operation after every operation, all ancestors observed'),
            Harness('deeper', h(4 if t else 3, M.CORE if t else ['gaps', 'packed flate', 'linearized stream updated'], SMALL), note='longer derivations'),
            Harness('sizes', h_sizes, note='every operation on documents large in one dimension')]
