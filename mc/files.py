"""Families of generated PDF files with the state every revision must have."""
from mc import refpdf as R
from mc.engine import Prune
from mc.common import BASE

FORMS = ['table', 'stream', 'packed', 'hybrid']


class File:
    """data: bytes; ends: end offset of each revision; states: per revision {num: (gen, value)};
    trailers: per revision expected trailer entries; structural: numbers of containers and xref streams per revision."""

    def __init__(self, data, ends, states, trailers, structural, maxnum, revs):
        self.__dict__.update(locals())
        del self.__dict__['self']


def assemble(steps, opts):
    """steps: list of (sets {num: value}, dels [num], form, attrs). opts: build options. Returns a File.

    Generations: an object keeps its generation when replaced; re-created numbers take attrs['regen'] more."""
    gens, live, dead = {}, {}, set()
    revs, states, trailers = [], [], []
    tr = {'/Root': 1j}
    top = max([3] + [n for sets, dels, form, at in steps for n in [*sets, *dels, *at.get('free', ())]]) + 1
    for sets, dels, form, at in steps:
        g = {}
        for n in sets:
            gens.setdefault(n, at.get('gens', {}).get(n, 0))
            if n in dead and at.get('regen'):
                gens[n] += 1
            dead.discard(n)
            g[n] = gens[n]
            live[n] = (gens[n], sets[n])
        for n in dels:
            live.pop(n, None)
            dead.add(n)
            g[n] = gens[n] + 1
        pk = []
        if form in ('packed', 'hybrid'):
            pk = [n for n in sorted(sets) if not isinstance(sets[n], R.S) and gens[n] == 0 and n not in at.get('unpacked', ())]
            if at.get('packorder'):
                pk.reverse()
        extra = at.get('trailer', {})
        tr = dict(tr)
        tr.update(extra)
        keep = {k: v for k, v in tr.items() if k != '/Root'}
        r = R.Rev(dict(sets), dels=dels, form={'packed': 'stream'}.get(form, form), packed=pk, gens=g, trailer=keep,
                  **{k: v for k, v in at.items() if k in ('widths', 'filt', 'predictor', 'index_mode', 'style', 'container', 'pad', 'order', 'lin', 'free', 'osep', 'ohead', 'oend', 'tsep', 'split', 'unlisted', 'hide')})
        if form != 'table' and not r.lin:
            if pk:
                r.ostm, top = top, top + 1
            r.xnum, top = top, top + 1
        elif r.lin:
            r.top, top = top, top + 3
        if at.get('order') == 'reverse':
            r.order = sorted(sets, reverse=True)
        revs.append(r)
        states.append(dict(live))
        trailers.append(dict(tr))
    data, ends = R.build(revs, root=1j, **opts)
    structural, acc, mx = [], set(), 3
    for r in revs:
        if r.lin:
            acc |= {r.lnum} | set(r.xnums)
        else:
            acc |= {x for x in (None if r.unlisted else r.xnum, r.ostm if r.packed else None) if x}
        structural.append(set(acc))
        mx = max([mx] + list(r.objs) + list(r.dels) + list(acc) + list(r.free))
    return File(data, ends, states, trailers, structural, mx, revs)


def value(n, r, kind=0):
    return [{'/V': n * 10 + r}, n * 10 + r, [n, r, {'/K': 1j}], b'(o%d-%d)' % (n, r), R.S({'/N': n}, b'content %d %d' % (n, r)),
            '/Name%d' % (n * 10 + r), n * 10 + r + .5, True][kind]


def hist_choices(ch, nums, nrev):
    """Every history: revision 0 defines some of nums, later revisions set, delete or leave each."""
    live, used = set(), set()
    out = []
    for r in range(nrev):
        sets, dels = [], []
        for n in nums:
            c = ch.pick(['-', 's', 'd'] if n in live else ['-', 's'])
            if c == 's':
                sets.append(n)
                live.add(n)
            elif c == 'd':
                dels.append(n)
                live.discard(n)
        if r and not sets and not dels:
            raise Prune()
        out.append((sets, dels))
    return out


def page_objs(extra=None):
    """Two pages with inherited attributes, content streams and a shared resource; objects 1..9."""
    o = {1: {'/Type': '/Catalog', '/Pages': 2j},
         2: {'/Type': '/Pages', '/Kids': [3j, 4j], '/Count': 2, '/MediaBox': [0, 0, 612, 792], '/Resources': {'/Font': {'/F1': 7j}}},
         3: {'/Type': '/Page', '/Parent': 2j, '/Contents': 5j},
         4: {'/Type': '/Page', '/Parent': 2j, '/Contents': [6j], '/Rotate': 90},
         5: R.S({}, b'BT /F1 12 Tf 10 700 Td (one) Tj ET'),
         6: R.S({'/Filter': '/FlateDecode'}, R.encode(b'BT /F1 12 Tf 10 700 Td (two) Tj ET', ['/FlateDecode'])),
         7: {'/Type': '/Font', '/Subtype': '/Type1', '/BaseFont': '/Helvetica', '/Encoding': '/WinAnsiEncoding'},
         8: {'/Title': b'(Title)'}, 9: [1, 2, {'/K': b'(v)'}]}
    o.update(extra or {})
    return o


def organisations():
    """name -> (steps, build options): one document (page_objs) in every file organisation and several histories."""
    b = page_objs()
    info = {'trailer': {'/Info': 8j, '/ID': [b'<00>', b'<01>']}}
    v = value
    upd = {9: [v(9, 1)], 10: v(10, 1)}
    out = {}
    for f in FORMS:
        out[f] = ([(b, (), f, info)], {})
        out[f + ' then delete'] = ([(b, (), f, info), ({10: v(10, 1)}, (9,), f, {})], {})
    out['packed flate'] = ([(b, (), 'packed', {**info, 'filt': '/FlateDecode', 'predictor': 12, 'container': '/FlateDecode', 'widths': [1, 3, 2]})], {'version': '1.5'})
    out['packed updated packed'] = ([(b, (), 'packed', info), ({3: {**b[3], '/New': 1}, 9: v(9, 1)}, (), 'packed', {}), ({}, (9,), 'packed', {})], {})
    out['table then packed'] = ([(b, (), 'table', info), (upd, (), 'packed', {})], {})
    out['packed then table'] = ([(b, (), 'packed', info), (upd, (), 'table', {})], {})
    out['table then hybrid'] = ([(b, (), 'table', info), (upd, (), 'hybrid', {})], {})
    out['linearized'] = ([(b, (), 'table', {**info, 'lin': (1, 3, 5)})], {})
    out['linearized stream'] = ([(b, (), 'stream', {**info, 'lin': (1, 3, 5)})], {})
    out['linearized updated'] = ([(b, (), 'table', {**info, 'lin': (1, 3, 5)}), (upd, (), 'table', {})], {})
    out['linearized stream updated'] = ([(b, (), 'stream', {**info, 'lin': (1, 3, 5)}), (upd, (8,), 'stream', {})], {})
    out['gaps'] = ([({**b, 14: v(14, 0)}, (), 'table', {**info, 'free': (12,), 'split': True}), ({17: v(17, 1)}, (14,), 'table', {})], {})
    out['gaps stream'] = ([({**b, 14: v(14, 0)}, (), 'stream', {**info, 'index_mode': 1}), ({17: v(17, 1)}, (14,), 'stream', {})], {})
    out['generations'] = ([({**b}, (), 'table', {**info, 'gens': {9: 3}}), ({}, (9,), 'table', {}), ({9: v(9, 2)}, (), 'table', {'regen': True, 'gens': {}})], {})
    g = {4: 2, 5: 1, 7: 5, 8: 4, 9: 3}      # references that name a generation
    def gref(x):
        if isinstance(x, complex):
            return complex(g.get(int(x.imag), 0), int(x.imag))
        if isinstance(x, list):
            return [gref(y) for y in x]
        return {k: gref(y) for k, y in x.items()} if isinstance(x, dict) else x
    bg = {n: gref(x) for n, x in {**b, 1: {**b[1], '/Nine': [9j]}}.items()}
    out['generations everywhere'] = ([(bg, (), 'table', {'trailer': gref(info['trailer']), 'gens': g}), ({10: gref(v(10, 1)), 11: [complex(3, 9), 9j]}, (), 'table', {})], {})
    out['recreated'] = ([(b, (), 'stream', info), ({}, (9,), 'stream', {}), ({9: v(9, 2)}, (), 'stream', {})], {})
    out['empty update'] = ([(b, (), 'table', info), ({}, (), 'table', {'trailer': {'/Extra': 1}})], {})
    out['empty update stream'] = ([(b, (), 'stream', info), ({}, (), 'stream', {})], {})
    out['unlisted xref stream'] = ([(b, (), 'stream', {**info, 'unlisted': True})], {})
    out['cr'] = ([(b, (), 'table', info), (upd, (), 'table', {})], {'eol': b'\r'})
    out['crlf'] = ([(b, (), 'packed', info)], {'eol': b'\r\n', 'binary': True})
    out['big offsets'] = ([(b, (), 'stream', {**info, 'pad': 66000})], {})
    out['many revisions'] = ([(b, (), 'table', info)] + [({9: [k]}, (), 'table', {}) for k in range(4)], {})
    return out


_MADE = {}


def organisation(name):
    if name not in _MADE:
        steps, opts = organisations()[name]
        f = _MADE[name] = assemble(steps, opts)
        ref = R.RefDoc(f.data, strict=False)
        live = ref.live()
        assert {n: (g, R.canon(x)) for n, (g, x) in live.items() if n not in f.structural[-1]} == {n: (g, R.canon(x)) for n, (g, x) in f.states[-1].items()}, name
    return _MADE[name]
