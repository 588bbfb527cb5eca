"""C09: written files satisfy an independent strict reader."""
import pdfsyntax as pdf
from mc.engine import Harness, Prune
from mc import model as M, refpdf as R, scale as S, files as F
from mc.checks.c05 import trail
from mc.checks import c08
from mc.common import expect, write, same


def check_file(doc):
    """The strict reader accepts the written file and sees the document."""
    want = M.content(doc)
    tr = trail(pdf.trailer(doc))
    data, doc2 = write(doc)
    got, ref = M.ref_content(data)
    expect(M.canon_content(got) == M.canon_content(want), lambda: 'strict reader: ' + M.diff(got, want))
    t = trail(ref.trailer)
    expect(same(t, tr), lambda: f'strict reader: trailer {t!r}, expected {tr!r}')
    # the entries this section frees are chained from object 0, the last one leading back to 0 (or lead to 0 themselves)
    top = ref.sections[0]['entries']
    chain, n = [], 0
    if 0 in top and top[0][0] == 'f':
        while True:
            n = top[n][1] if n in top and top[n][0] == 'f' else 0
            if n == 0:
                break
            expect(n not in chain, lambda: f'the free list loops on object {n}: {[(k, e) for k, e in top.items() if e[0] == "f"]}')
            chain.append(n)
    loose = [k for k, e in top.items() if e[0] == 'f' and k and e[1] and k not in chain]
    expect(not loose, lambda: f'free entries {loose} are not in the free list')
    # deleted objects are free entries, if their number was ever used in the file
    live = {int(r.imag) for r in pdf.in_use(doc2)}
    for n, e in ref.entries.items():
        expect(n == 0 or (e[0] == 'f') == (n not in live), lambda: f'entry of object {n} is {e}, in use: {n in live}')
    return data, ref


def h(depth, names, more, edits=None):
    def run(ch):
        name, doc, m = M.drive(ch, names, depth, more, edits=edits, edits_b=edits)
        data, ref = check_file(doc)
        got, _ = M.ref_content(data)
        expect(M.canon_content(got) == M.canon_content(m.live), lambda: M.diff(got, m.live))
        ch.outcome((name, len(data), len(ref.entries)))
    return run


def h_pages(depth, names, ops):
    def run(ch):
        name = ch.pick(names)
        ch.note(f'document: {name}')
        doc, _ = M.start(name)
        for k in range(depth):
            op = ch.pick([('stop',)] + c08.page_enabled(doc, [o for o in ops if o[0] != 'rewind' or name != 'empty update']))
            if op[0] == 'stop':
                break
            ch.note(op)
            doc = c08.page_op(doc, op, k)
            ch.step()
        data, ref = check_file(doc)
        ch.state((name, repr(sorted(M.canon_content(M.content(doc)).items()))))
        ch.outcome(len(data))
    return run


def h_blank(ch):
    size = ch.pick(list(pdf.PAPER_SIZES))
    doc = pdf.blank(size)
    for op in ch.pick([[], ['add'], ['annot'], ['rotateall', 'commit', 'rotateall'], ['force'], ['compress']]):
        doc = c08.page_op(doc, (op, 0), 1)
        ch.step()
    check_file(doc)
    ch.state((size, len(ch.choices)))
    ch.outcome(size)


EVERY = [('rotate', 0), ('annot', 0), ('remove', 0), ('other',), ('self',), ('into',), ('squash',), ('compress',),
         ('version',), ('force',), ('filter',), ('add',), ('del', 9), ('set', 9), ('commit',), ('rewind',), ('reload',)]

def h_sizes(depth):
    def run(ch):
        kind, n, form, data, f = S.choose(ch, S.FEW if depth == 1 else S.FEW[:4])
        doc = pdf.loads(data)
        for k in range(depth):
            op = ch.pick(c08.big_enabled(doc, kind))
            ch.note(op)
            doc = c08.big_op(doc, op, k, n)
            ch.step()
        data, ref = check_file(doc)
        ch.state((kind, n, form, repr(ch.lines)))
        ch.outcome((kind, n, len(data)))
    return run


def h_boundaries(targets):
    """Offsets of the section written last that are exactly at the limits of one, two or three bytes."""
    def run(ch):
        name = ch.pick(['blank', 'blank forced', 'stream', 'packed', 'packed flate', 'table', 'table forced'])
        target = ch.pick(targets)
        how = ch.pick(['add', 'set', 'add, delete', 'compress', 'two revisions'])
        ch.note((name, target, how))
        base = M.start(name.split(' forced')[0])[0]
        if 'forced' in name:
            base = pdf.force_xref_stream(base)
        if how == 'compress':
            base = pdf.force_xref_stream(pdf.squash(base), filt='')
        pad = 0
        for _ in range(8):
            junk = b'(' + b'x' * pad + b')'
            if how == 'set':
                doc = pdf.update_object(base, pdf.in_use(base)[-1].imag.__int__(), junk)
            else:
                doc, r = pdf.add_object(base, junk)
            if how == 'add, delete':
                doc, r = pdf.add_object(doc, 7)
                doc = pdf.update_object(doc, [int(x.imag) for x in pdf.in_use(doc) if x != 1j][-3], None)
            if how == 'two revisions':
                doc, r = pdf.add_object(pdf.commit(doc), 9)
            data = write(doc)[0]
            at = int(data[data.rindex(b'startxref') + 9:].split()[0])
            if at == target:
                break
            pad += target - at
            if pad < 0:
                raise Prune()
        else:
            raise Prune()
        check_file(doc)
        ch.step()
        ch.state((name, target, how))
        ch.outcome((name, how))
    return run


def h_high(depth):
    """Small files with object numbers that need two or three bytes."""
    def run(ch):
        top = ch.pick([255, 256, 257, 65535, 65536, 65537])
        form = ch.pick(['table', 'stream', 'packed'])
        other = ch.pick([20, 254, top - 1])
        b = F.page_objs({9: [1]})
        doc = pdf.loads(F.assemble([(b, (), form, {}), ({top: {'/V': [1j, complex(0, other)]}, other: {'/O': complex(0, top)}}, (), form, {})], {}).data)
        ops = []
        for k in range(depth):
            live = {int(r.imag) for r in pdf.in_use(doc)}
            op = ch.pick(['del top', 'del other', 'set top', 'set 9', 'add', 'del both', 'group', 'commit'] + (['force'] if form == 'table' else []))
            ops.append(op)
            if depth < 3 and top > 999 and (op not in ('del top', 'del both', 'force') if k == 0 else other == 254 or op == 'commit'):
                raise Prune()           # quick tier: the slow documents with the operations that matter most
            if op[:3] == 'del':
                for x in {'del top': [top], 'del other': [other], 'del both': [other, top]}[op]:
                    if x not in live:
                        raise Prune()
                    doc = pdf.update_object(doc, x, None)
            elif op in ('set top', 'set 9'):
                x = 9 if op == 'set 9' else top
                if x not in live:
                    raise Prune()
                doc = pdf.update_object(doc, x, [k, complex(0, top)])
            elif op == 'add':
                doc, _ = pdf.add_object(doc, {'/New': complex(0, top)})
            elif op == 'group':
                if form == 'table' and 'force' not in ops:
                    raise Prune()
                doc = pdf.group_obj_into_stream(doc)
            elif op == 'force':
                doc = pdf.force_xref_stream(doc)
            else:
                doc = pdf.commit(doc)
        ch.note((top, form, other, ops))
        data, ref = check_file(doc)
        back = pdf.loads(data)
        got, want = M.canon_content(M.content(back)), M.canon_content(M.content(doc))
        expect(got == want, lambda: M.diff(M.content(back), M.content(doc)))
        ch.step()
        ch.state((top, form, other, tuple(ops)))
        ch.outcome((top, len(data)))
    return run


def harnesses(tier):
    t = tier == 'thorough'
    more = [('commit',), ('rewind',), ('reload',)]
    sizes = [('big',), ('many', 300), ('thin',), ('del', 9), ('re', 9), ('add',)]
    return [Harness('objects', h(4 if t else 2, M.ALL, more), note='object edits on every organisation'),
            Harness('objects, deeper', h(5 if t else 3, M.CORE, more), note='deeper on the core organisations'),
            Harness('sizes', h(5 if t else 4, ['blank', 'table', 'stream', 'packed flate'], more[:1], sizes), note='more than 255 objects, offsets beyond 65535, many deletions'),
            Harness('blank', h_blank, note='every paper size'),
            Harness('pages', h_pages(3 if t else 2, M.ALL, EVERY), note='page and document operations on every organisation'),
            Harness('pages, deeper', h_pages(4 if t else 3, M.CORE if t else ['table then delete', 'packed flate', 'hybrid'], EVERY), note='deeper'),
            Harness('boundaries', h_boundaries([x + d for x in [256, 512, 768, 1024, 2048, 4096, 32768, 65536, 131072] + ([1 << 24] if t else []) for d in (-1, 0, 1)]), note='last section exactly at a power of two, plus or minus one'),
            Harness('large documents', h_sizes(2 if t else 1), note='documents large in one dimension, every operation'),
            Harness('high numbers', h_high(3 if t else 2), note='small files with object numbers around 256 and 65536, every pair of edits')]
