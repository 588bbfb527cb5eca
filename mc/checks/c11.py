"""C11: commit closes a revision and rewind restores the previous one exactly."""
import pdfsyntax as pdf
from mc.engine import Harness, Prune
from mc import model as M, refpdf as R
from mc.common import expect, write, same

OPS = [('set', 9), ('sets', 8), ('del', 9), ('re', 9), ('add',)]
OPS_B = [('set', 3), ('sets', 3), ('del', 4), ('re', 4), ('add',)]


def each(doc, m):
    M.observe_content(doc, m)
    M.observe_changes(doc, m)
    expect(pdf.updates(doc) == len(m.closed), lambda: f'revision {pdf.updates(doc)}, expected {len(m.closed)}')


def h(depth, names, more, edits=None, written=True, full=True):
    def run(ch):
        name = ch.pick(names)
        doc, m = M.start(name)
        ch.note(f'document: {name}')
        ops = edits or (OPS_B if name == 'blank' else OPS)
        stack = []          # documents as they were when a revision was closed
        for k in range(depth):
            op = ch.pick([('stop',)] + M.enabled(m, ops + more))
            if op[0] == 'stop':
                break
            ch.note(op)
            before, pend, revs = M.canon_content(M.content(doc)), m.pending(), len(m.closed)
            doc = M.apply(doc, m, op, k)
            ch.step()
            if op[0] == 'commit':
                expect(pdf.updates(doc) == revs + (1 if pend else 0), lambda: f'{pdf.updates(doc)} revisions after committing {len(pend)} changes in revision {revs}')
                expect(M.canon_content(M.content(doc)) == before, 'committing changed an object')
                expect(pdf.changes(doc) == [], 'pending changes after committing')
            each(doc, m)
        ch.state((name, m.key()))
        if written:
            data, _ = write(doc)
            got, ref = M.ref_content(data)
            expect(M.canon_content(got) == M.canon_content(m.live), lambda: 'written: ' + M.diff(got, m.live))
        # unwinding down to revision 0 gives every closed revision in turn
        while full and m.closed:
            doc = M.apply(doc, m, ('rewind',), 0)
            ch.step()
            each(doc, m)
        if full:
            expect(pdf.updates(doc) == 0, 'not at revision 0')
            expect(pdf.updates(pdf.rewind(doc)) == 0, 'rewinding from revision 0 goes elsewhere')
            M.observe_content(pdf.rewind(doc), m)
            doc = M.apply(doc, m, ('add',), 99)
            each(doc, m)
            data, _ = write(doc)
            got, ref = M.ref_content(data)
            expect(M.canon_content(got) == M.canon_content(m.live), lambda: 'written at revision 0: ' + M.diff(got, m.live))
            expect(len(ref.sections) <= 2, lambda: f'{len(ref.sections)} sections in a document reopened at revision 0')
        ch.outcome((name, repr(m.key()[0])))
    return run

def h_long(ch):
    """Many revisions, then down to revision 0 one by one (or back and forth)."""
    name = ch.pick(['blank', 'table', 'packed flate', 'hybrid', 'linearized stream', 'many revisions', 'gaps'])
    n = ch.pick([1, 2, 7, 8, 9, 10, 11, 15, 16, 17, 20, 32, 33])
    size = ch.pick([1, 12, 300])
    if size == 300 and n > 3:
        raise Prune()
    ch.note(f'document: {name}; {n} commits of {size} changes')
    doc, m = M.start(name)
    for k in range(n):
        doc = M.apply(doc, m, ('many', size), k)
        doc = M.apply(doc, m, ('set', 3), k)
        if k % 4 == 2:
            doc = M.apply(doc, m, ('thin',), k)
        each(doc, m)
        doc = M.apply(doc, m, ('commit',), k)
        each(doc, m)
        ch.step(3)
    back = ch.pick(['down', 'half and again'])
    if back == 'half and again':
        for k in range(n // 2):
            doc = M.apply(doc, m, ('rewind',), k)
            each(doc, m)
        for k in range(n // 2):
            doc = M.apply(doc, m, ('add',), k)
            doc = M.apply(doc, m, ('commit',), k)
            each(doc, m)
        data, _ = write(doc)
        got, ref = M.ref_content(data)
        expect(M.canon_content(got) == M.canon_content(m.live), lambda: 'written: ' + M.diff(got, m.live))
    while m.closed:
        doc = M.apply(doc, m, ('rewind',), 0)
        each(doc, m)
        ch.step()
    expect(pdf.updates(doc) == 0, 'not at revision 0')
    doc = M.apply(doc, m, ('add',), 99)
    data, _ = write(doc)
    got, ref = M.ref_content(data)
    expect(M.canon_content(got) == M.canon_content(m.live), lambda: 'written at revision 0: ' + M.diff(got, m.live))
    ch.state((name, n, size, back))
    ch.outcome((name, n))


def harnesses(tier):
    t = tier == 'thorough'
    more = [('commit',), ('rewind',)]
    rl = more + [('reload',)]
    return [Harness('every organisation', h(4 if t else 2, M.ALL, rl), note='all sequences, then unwound to revision 0 and edited'),
            Harness('core organisations', h(5 if t else 3, M.CORE, rl), note='deeper'),
            Harness('alternation', h(7 if t else 5, ['blank', 'table then delete', 'packed flate', 'linearized stream'], more, [('set', 3), ('add',)]), note='long alternations of edits, commits and rewinds'),
            Harness('long', h_long, note='up to 33 revisions of up to 300 changes, unwound')]
