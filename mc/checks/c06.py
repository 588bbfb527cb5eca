"""C06: what a lookup returns never depends on earlier lookups."""
import pdfsyntax as pdf
from mc.engine import Harness, Prune
from mc import files as F, refpdf as R, scale as S
from mc.common import same, expect, BASE, norm, write
from mc.checks.c05 import trail

PAGES = {2: {'/Type': '/Pages', '/Kids': [3j, 4j], '/Count': 2, '/Rotate': 90, '/MediaBox': [0, 0, 10, 20]},
         3: {'/Type': '/Page', '/Parent': 2j, '/Resources': {'/X': [1, {'/Y': 2}]}},
         4: {'/Type': '/Page', '/Parent': 2j, '/MediaBox': [0, 0, 5, 5], '/Contents': 5j}}


def seeds():
    """(name, steps): objects 5.. share containers across revisions."""
    base = {1: BASE[1], **PAGES}
    v = F.value
    s5 = R.S({'/D': {'/E': [1]}}, b'stream five')
    out = []
    for f0, f1, f2 in [('packed', 'packed', 'packed'), ('packed', 'stream', 'table'), ('hybrid', 'packed', 'hybrid'), ('table', 'packed', 'packed'), ('table', 'table', 'stream')]:
        out.append(('replace ' + '/'.join((f0, f1)), [({**base, 5: s5, 6: v(6, 0), 7: v(7, 0, 2)}, (), f0, {}), ({6: v(6, 1), 3: {**PAGES[3], '/New': True}}, (), f1, {})]))
        out.append(('delete ' + '/'.join((f0, f1, f2)), [({**base, 5: s5, 6: v(6, 0), 7: v(7, 0, 2)}, (), f0, {}), ({7: v(7, 1, 2)}, (6,), f1, {}), ({8: v(8, 2)}, (), f2, {})]))
        out.append(('recreate ' + '/'.join((f0, f1, f2)), [({**base, 5: s5, 6: v(6, 0), 7: v(7, 0, 2)}, (), f0, {}), ({}, (6, 7), f1 if f1 != 'hybrid' else 'table', {}), ({6: v(6, 2, 2), 2: {**PAGES[2], '/Z': [6j]}}, (), f2, {})]))
    return out


def mutate(v):
    """Modify everything reachable in a returned value."""
    if isinstance(v, dict):
        for x in list(v.values()):
            mutate(x)
        v['/Mutated'] = 666
        v.pop('/Type', None)
        v.pop('/V', None)
    elif isinstance(v, list):
        for x in v:
            mutate(x)
        v.append(667)
        v.insert(0, 668)
    elif isinstance(v, pdf.Stream):
        mutate(v.entries)
    elif isinstance(v, tuple):
        for x in v:
            mutate(x)


def expected_pages(live):
    out = []
    inh = {k: live[2][1][k] for k in ('/Rotate', '/MediaBox')}
    for k in (3, 4):
        p = dict(inh)
        p.update(live[k][1])
        out.append(p)
    return out


def read(doc, op, live, tr):
    """Perform a lookup, compare with the model, return the value."""
    kind, n = op
    if kind == 'get':
        g = live[n][0] if n in live else 0
        got = pdf.get_object(doc, complex(g, n))
        want = live[n][1] if n in live else None
        expect(same(got, want), lambda: f'object {n} reads as {got!r}, expected {want!r}')
    elif kind == 'obj':
        got = doc.obj(n)
        want = live[n][1]
        expect(same(got, want), lambda: f'obj({n}) reads as {got!r}, expected {want!r}')
    elif kind == 'pages':
        got = pdf.pages(doc)
        want = expected_pages(live)
        expect(same(got, want), lambda: f'pages read as {got!r}, expected {want!r}')
    elif kind == 'tree':
        got = pdf.flat_page_tree(doc)
        inh = {k: live[2][1][k] for k in ('/Rotate', '/MediaBox')}
        expect([r for r, _ in got] == [3j, 4j] and all(same(a, inh) for _, a in got), lambda: f'page tree reads as {got!r}')
    elif kind == 'trailer':
        got = pdf.trailer(doc)
        expect(same(trail(got), tr), lambda: f'trailer reads as {got!r}, expected {tr!r}')
    elif kind == 'catalog':
        got = pdf.catalog(doc)
        expect(same(got[0], live[1][1]), lambda: f'catalog reads as {got!r}')
    elif kind == 'in_use':
        got = pdf.in_use(doc)
    return got


NUMS = (3, 5, 6, 7)
READS = [('get', n) for n in NUMS] + [('pages', 0), ('trailer', 0), ('tree', 0), ('get', 1), ('catalog', 0)]
EDITS = [('set', 6), ('set', 7), ('set', 3), ('del', 7), ('commit', 0), ('rotate', 0)]


def h(depth, sd, files):
    def run(ch):
        name, steps = ch.pick(sd)
        f = files(name, steps)
        doc = pdf.loads(f.data)
        live = {n: gv for n, gv in f.states[-1].items()}
        tr = trail(f.trailers[-1])
        ops = []
        for k in range(depth):
            op = ch.pick(READS + EDITS)
            kind, n = op
            if op in READS:
                mut = ch.pick([True, False]) if k < depth - 1 else False
                got = read(doc, op, live, tr)
                if mut:
                    mutate(got)
                op = op + (('mutated',) if mut else ())
            elif kind == 'set':
                if n not in live:
                    raise Prune()
                val = {'/Type': '/Page', '/Parent': 2j, '/Set': k} if n == 3 else [k, {'/Set': n}]
                doc = pdf.update_object(doc, n, val)
                live[n] = (live[n][0], {'/Type': '/Page', '/Parent': 2j, '/Set': k} if n == 3 else [k, {'/Set': n}])
            elif kind == 'del':
                if n not in live:
                    raise Prune()
                doc = pdf.update_object(doc, n, None)
                del live[n]
            elif kind == 'commit':
                doc = pdf.commit(doc)
            elif kind == 'rotate':
                for p in (3, 4):
                    old = live[p][1].get('/Rotate', live[2][1]['/Rotate'])
                    live[p] = (live[p][0], {**live[p][1], '/Rotate': (old + 90) % 360})
                doc = pdf.rotate(doc, 90)
            ops.append(op)
            ch.step()
            ch.state((name, repr(sorted(live.items(), key=str)), tuple(n for n, c in enumerate(doc.cache) if c is not None)))
        ch.note(f'file: {name}; operations: {ops}')
        for op in READS:
            read(doc, op, live, tr)
        for n in range(1, 9):
            if n not in f.structural[-1]:
                read(doc, ('get', n), live, tr)
        ch.outcome((name, repr(sorted(live.items(), key=str))))
    return run

def h_given(ch):
    """Values given to an operation are modified by the caller afterwards, or used again for another document."""
    name, steps = ch.pick(seeds()[:3])
    data = F.assemble(steps, {}).data
    doc = pdf.loads(data)
    src = ch.pick(['fresh', 'read', 'stream', 'list', 'rect'])
    how = ch.pick(['update', 'add', 'update in place', 'add in place']) if src != 'rect' else 'annotation'
    first = ch.pick(['nothing', 'read', 'commit', 'write'])
    later = ch.pick(['modify', 'modify and give again'])
    v = {'fresh': {'/A': [1, {'/B': [2]}], '/C': {'/D': 3}}, 'read': pdf.get_object(doc, 3j), 'stream': pdf.get_object(doc, 5j), 'list': [1, [2, {'/K': [3]}]], 'rect': [0, 0, 10, 20]}[src]
    if src == 'stream':
        v, _ = pdf.forge_stream({'/D': {'/E': [1]}}, b'given')
    num = 7
    ch.note((name, src, how, first, later))

    def give(d):
        if how == 'annotation':
            d = pdf.add_text_annotation(d, 1, 'note', v)
            return d, pdf.pages(d)[1]['/Annots']
        if how.startswith('update'):
            return pdf.update_object(d, num, v, **({'immut': False} if 'place' in how else {})), complex(0, num)
        return pdf.add_object(d, v, **({'immut': False} if 'place' in how else {}))

    def shown(d, ref):
        o = pdf.get_object(d, ref)
        if how == 'annotation':
            o = pdf.get_object(d, o[-1])
        return R.canon(norm(o))
    d, ref = give(pdf.copy_doc(doc))
    if first == 'commit':
        d = pdf.commit(d)
    elif first == 'write':
        write(d)
    if first == 'read':
        was = shown(d, ref)
    else:
        e, r = give(pdf.copy_doc(doc))
        was = shown(e, r)
    mutate(v)
    expect(shown(d, ref) == was, lambda: f'the document has {shown(d, ref)!r} instead of {was!r} after the caller modified the value it gave')
    if later != 'modify':
        d2, ref2 = give(pdf.copy_doc(doc))
        new = shown(d2, ref2)
        expect(new != was, 'the modified value is not taken')
        mutate(v)
        expect(shown(d, ref) == was and shown(d2, ref2) == new, 'two documents share the value they were given')
    expect(shown(pdf.loads(write(d)[0]), ref) == was, 'the document is written with another value than it was given')
    ch.step(2)
    ch.state((name, src, how, first, later))
    ch.outcome((src, how))


def h_sizes(ch):
    """Many objects, revisions and pages; everything read in several orders around an edit."""
    kind, n, form, data, f = S.choose(ch, S.FEW, [k for k in S.KINDS if k not in ('pages', 'groups', 'chain')], ('table', 'packed', 'hybrid'))
    order = ch.pick(['up', 'down', 'ends', 'twice'])
    mut = ch.pick([False, True])
    edit = ch.pick(['none', 'before', 'middle'])
    doc = pdf.loads(data)
    live = dict(f.states[-1])
    nums = [x for x in range(1, f.maxnum + 1) if x not in f.structural[-1]]
    if order == 'down':
        nums.reverse()
    elif order == 'ends':
        nums = [x for p in zip(nums, reversed(nums)) for x in p]
    elif order == 'twice':
        nums += nums
    for i, x in enumerate(nums):
        if edit == 'before' and i == 0 or edit == 'middle' and i == len(nums) // 2:
            victim = 9 if kind != 'links' else 10
            doc = pdf.update_object(doc, victim, {'/Edited': [n]})
            live[victim] = (live[victim][0], {'/Edited': [n]})
        got = read(doc, ('get', x), live, None)
        if mut:
            mutate(got)
    for x in nums:
        read(doc, ('get', x), live, None)
    expect(same(trail(pdf.trailer(doc)), trail(f.trailers[-1])), 'trailer')
    ch.step(len(nums))
    ch.state((kind, n, order, mut, edit, form))
    ch.outcome((kind, n))


def harnesses(tier):
    t = tier == 'thorough'
    sd = seeds()
    made = {}

    def files(name, steps):
        if name not in made:
            made[name] = F.assemble(steps, {})
        return made[name]
    few = [s for s in sd if 'packed' in s[0] or 'hybrid' in s[0]]
    return [Harness('sequences', h(3 if t else 2, sd, files), note='every sequence of %d lookups (mutating results or not) and edits on %d files' % (3 if t else 2, len(sd))),
            Harness('deeper', h(4 if t else 3, few if t else few[::2], files), note='every sequence of %d on files with object streams' % (4 if t else 3)),
            Harness('given values', h_given, note='values given to update_object, add_object and add_text_annotation, modified afterwards by the caller or given again'),
            Harness('sizes', h_sizes, note='documents large in one dimension, everything read in 4 orders around an edit')]
