"""C25: index diagnostics flag exactly the wrong entries and the unindexed objects."""
import collections
import contextlib
import io
import os
import pdfsyntax as pdf
from pdfsyntax import filestruct as FS, cli
from mc.engine import Harness, Prune
from mc import refpdf as R
from mc.regions import Layout, runs_of
from mc.common import expect, scratch, BASE, SIZES

S = R.S
FORMS = ['table', 'stream', 'packed', 'hybrid']
KINDS = ['+1', '-1', '0', 'far', 'gen', 'free', 'gone', 'swap', 'renumber', 'header', 'lost']


def corrupt(ent, n, kind, offs):
    """Apply one fault to entry n of the section."""
    t, a, g = ent[n]
    others = [m for m in ent if m and m != n and ent[m][0] != 'f']
    if t == 'c':
        if kind == '+1':
            ent[n] = (t, a, g + 1)
        elif kind == '-1':
            if g == 0:
                raise Prune()
            ent[n] = (t, a, g - 1)
        elif kind == 'far':
            ent[n] = (t, a, g + 200)
        elif kind == 'gen':
            ent[n] = (t, a + 1, g)
        elif kind == '0':
            ent[n] = ('n', offs[a], 0)       # leads to the container
        elif kind == 'header':
            ent[n] = ('n', g, 0)
    else:
        if kind == '+1':
            ent[n] = (t, a + 1, g)
        elif kind == '-1':
            ent[n] = (t, a - 1, g)
        elif kind == '0':
            ent[n] = (t, 0, g)
        elif kind == 'far':
            ent[n] = (t, a + 100000, g)
        elif kind == 'gen':
            ent[n] = (t, a, g + 1)
        elif kind == 'header':
            ent[n] = (t, 9, g)
    if kind == 'free':
        ent[n] = ('f', 0, g if t == 'n' else 0)
    elif kind == 'lost':                      # shown as free although it keeps its place
        ent[n] = ('f', a, g)
    elif kind == 'gone':
        del ent[n]
    elif kind == 'swap':
        m = min([x for x in others if x > n], default=min(others, default=None))
        if m is None:
            raise Prune()
        ent[n], ent[m] = ent[m], ent[n]
    elif kind == 'renumber':
        m = max(ent) + 3
        ent[m] = ent.pop(n)


def build(ch, nrev, extra, forms):
    lay = Layout()
    lay.comment(b'%PDF-1.7')
    prev = None
    num = 10
    every = []
    plan = [ch.pick(forms) for _ in range(nrev)]
    for r, form in enumerate(plan):
        before = len(lay.regions)
        if r == 0:
            for n, v in BASE.items():
                lay.obj(n, 0, v)
                lay.gap(b'\n')
        else:
            lay.obj(10, 0, {'/Again': r})        # replaces the first extra object
            lay.gap(b'\n')
        members = {}
        for k in range(extra):
            if form in ('packed', 'hybrid') and k == 0:
                ms = [(num + 1, {'/M': 1}), (num + 2, 5), (num + 3, [1])]
                lay.objstm(num, ms, filt=None if r else '/FlateDecode')
                members.update({m: ('c', num, i) for i, (m, _) in enumerate(ms)})
                num += 4
            elif k == 1:
                lay.obj(num, 2, [num])
                num += 1
            else:
                lay.obj(num, 0, S({}, b'a stream 5 0 obj'))
                num += 1
            lay.gap(b'\n')
        xnum, num = num, num + 1
        ent = {x['num']: ('n', x['pos'], x['gen']) for x in lay.regions[before:] if x['kind'] == 'IND_OBJ'}
        offs = {n: e[1] for n, e in ent.items()}
        if r == 0:
            ent[0] = ('f', 0, 65535)
        elif r and ch.pick([0, 1]) if nrev == 2 and extra == 1 else 0:
            ent[3] = ('f', 0, 1)
        tr = {'/Root': 1j, '/Size': num + 20}
        if prev is not None:
            tr['/Prev'] = prev
        sections = {'table': [ent], 'stream': [ent], 'packed': [{**ent, **members}], 'hybrid': [ent, members]}[form]
        for i, sec in enumerate(sections):
            for n in sorted(sec):
                if n and sec.get(n, ('f',))[0] != 'f':
                    kind = ch.dev([None] + KINDS)
                    if kind:
                        corrupt(sec, n, kind, offs)
                        every.append((r, i, n, kind))
        if form == 'hybrid':
            here = len(lay.data)
            kind = ch.dev([None, '+1', 'gone'])
            sec = dict(sections[1])
            if kind != 'gone':
                sec[xnum] = ('n', here + (1 if kind else 0), 0)
            if not sec:
                sec[899] = ('f', 0, 1)
            x = lay.xstream(xnum, runs_of(sec), {'/Size': num + 20})
            lay.gap(b'\n')
            tr['/XRefStm'] = x['pos']
            for m in members:
                ent.setdefault(m, ('f', 0, 0))
            kind = ch.dev([None, '+1', 'gone'])
            if kind != 'gone':
                ent[xnum] = ('n', here + (1 if kind else 0), 0)
        if form in ('table', 'hybrid'):
            x = lay.table(runs_of(ent, ch.dev([False, True])), tr)
        else:
            sec = sections[0]
            kind = ch.dev([None, '+1', 'gen', 'gone'])
            if kind != 'gone':
                sec[xnum] = ('n', len(lay.data) + (kind == '+1'), 1 if kind == 'gen' else 0)
            x = lay.xstream(xnum, runs_of(sec), tr, filt=ch.dev([None, '/FlateDecode']))
        lay.gap(b'\n')
        lay.startxref(x['pos'])
        lay.gap(b'\n')
        lay.eof()
        prev = x['pos']
    return lay, plan, every


def h(nrev, extra, forms, disasm=True, builder=build):
    def run(ch):
        lay, plan, every = builder(ch, nrev, extra, forms)
        ch.note(f'{plan} faults (revision, section, object, kind): {every}')
        ch.state(lay.data)
        direct = {(r['num'], r['gen'], r['pos']) for r in lay.regions if r['kind'] == 'IND_OBJ'}
        emb = {(m['num'], m['env'], m['slot']) for m in lay.embedded}
        wrong, indexed = {}, set()
        marks = []
        for r in lay.tables:
            bad = []
            for k, j, n, t, a, g in r['entries']:
                mark = '-@'
                if t != 'f' and n:
                    key = ('EMB', n, a, g) if t == 'c' else ('DIR', n, g, a)
                    ok = (n, a, g) in emb if t == 'c' else (n, g, a) in direct
                    if ok:
                        indexed.add(key)
                    else:
                        bad.append(key)
                        mark = '-?'
                marks.append((n, mark))
            wrong[r['pos']] = bad
        objs = []
        for r in lay.regions:
            if r['kind'] == 'IND_OBJ':
                objs.append(('DIR', r['num'], r['gen'], r['pos']))
                objs += [('EMB', m['num'], m['env'], m['slot']) for m in r.get('members', ())]
        lost = [o for o in objs if o not in indexed]
        data = lay.data
        fd = FS.bdata_provider(data)
        sections = FS.file_object_map(fd)
        seq, _, _ = FS.build_xref_sequence(fd)
        got = FS.check_index_targets(sections, seq)
        ch.step(len(marks) + len(objs))
        C = collections.Counter
        expect(set(got) == set(wrong), f'structures {sorted(got, key=str)}, expected {sorted(wrong)}')
        for p in wrong:
            expect(C(got[p]) == C(wrong[p]), f'structure at {p}: reported {got[p]}, expected {wrong[p]}')
        got = FS.check_not_indexed_objects(sections, seq)
        expect(C(got) == C(lost), f'not indexed: {got}, expected {lost}')
        if disasm:
            p = os.path.join(scratch(), 'in.pdf')
            with open(p, 'wb') as f:
                f.write(data)
            out = io.StringIO()
            with contextlib.redirect_stdout(out):
                cli.dump_disasm(p)
            lines = [x.split() for x in out.getvalue().splitlines()]
            got = []
            for x in lines:
                if 'xref' in x:
                    st = [y for y in x if y in ('-@', '-?')]
                    expect(len(st) == 1, f'line {x}')
                    ref = [y for y in x if y[:1].isdigit() and ',' in y]
                    got.append((int(ref[0].split(',')[0]), st[0]))
            expect(got == marks, f'disassembly marks {got}, expected {marks}')
            got = []
            for x in lines:
                if 'ind_obj' in x:
                    st = [y for y in x if y in ('@-', '?-')]
                    expect(len(st) == 1, f'line {x}')
                    ref = x[x.index('ind_obj') + 1]
                    got.append((int(ref.split(',')[0]), st[0]))
            want = [(o[1], '?-' if o in lost else '@-') for o in objs]
            expect(got == want, f'disassembly marks {got}, expected {want}')
        ch.outcome((tuple(marks), tuple(lost)))
    return run

def build_large(ch, nrev, extra, forms):
    """One fault in a structure with many entries, many members or many sections."""
    form = ch.pick(forms)
    n = ch.pick([x for x in SIZES if x > 8] + [300, 1000])
    split = ch.pick([False, True])
    lay = Layout()
    lay.comment(b'%PDF-1.7')
    for k, v in BASE.items():
        lay.obj(k, 0, v)
        lay.gap(b'\n')
    members = {}
    num = 10
    if form in ('packed', 'hybrid'):
        ms = [(num + 1 + k, [k]) for k in range(n)]
        lay.objstm(num, ms, filt='/FlateDecode')
        members = {m: ('c', num, k) for k, (m, v) in enumerate(ms)}
        num += n + 1
    else:
        for k in range(n):
            lay.obj(num, 0, [k])
            lay.gap(b'\n')
            num += 1
    lay.gap(b'\n')
    xnum = num
    ent = {x['num']: ('n', x['pos'], x['gen']) for x in lay.regions if x['kind'] == 'IND_OBJ'}
    offs = {k: e[1] for k, e in ent.items()}
    ent[0] = ('f', 0, 65535)
    tr = {'/Root': 1j, '/Size': num + 20}
    sec = members if form == 'hybrid' else ent
    if form == 'packed':
        ent.update(members)
    every = []
    kind = ch.pick([None, '+1', 'gen', 'free', 'gone', 'swap', 'all'])
    where = ch.pick(['first', 'tenth', 'middle', 'last']) if kind not in (None, 'all') else 'first'
    cand = [x for x in sorted(sec) if x > 9 and sec[x][0] != 'f']
    victims = cand if kind == 'all' else [] if kind is None else [cand[{'first': 0, 'tenth': min(9, n - 1), 'middle': n // 2, 'last': len(cand) - 1}[where]]]
    for v in victims:
        corrupt(sec, v, '+1' if kind == 'all' else kind, offs)
        every.append((0, v, kind))
    if form == 'hybrid':
        x = lay.xstream(xnum, runs_of({**members, xnum: ('n', len(lay.data), 0)}, split), {'/Size': num + 20})
        lay.gap(b'\n')
        ent[xnum] = ('n', x['pos'], 0)
        tr['/XRefStm'] = x['pos']
        for m in members:
            ent.setdefault(m, ('f', 0, 0))
    if form in ('table', 'hybrid'):
        x = lay.table(runs_of(ent, split), tr)
    else:
        ent[xnum] = ('n', len(lay.data), 0)
        x = lay.xstream(xnum, runs_of(ent, split), tr)
    lay.gap(b'\n')
    lay.startxref(x['pos'])
    lay.gap(b'\n')
    lay.eof()
    return lay, [form, n, split, where], every[:3]


def harnesses(tier):
    t = tier == 'thorough'
    return [Harness('one revision', h(1, 2, FORMS), 3 if t else 2, 'every combination of %d faults in every form' % (3 if t else 2)),
            Harness('two revisions', h(2, 1, FORMS), 2 if t else 1, 'every fault in every mix of forms'),
            Harness('three revisions', h(3, 1, FORMS), 1 if t else 0, 'histories without faults' if not t else 'one fault'),
            Harness('sizes', h(1, 1, FORMS, builder=build_large), note='up to 1000 entries, one fault or faults everywhere')]
