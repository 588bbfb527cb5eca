"""C31: commands report what the library computes and leave their input alone."""
import builtins
import io
import os
import re
import shutil
import subprocess
import sys
import tempfile
import pdfsyntax as pdf
from pdfsyntax import cli
from mc.engine import Harness, Prune
from mc import files as F, refpdf as R
from mc.checks import c30
from mc.common import expect, scratch, BASE

COMMANDS = ['overview', 'disasm', 'text', 'fonts', 'browse', 'hexdump', 'compress']
ENC = {'/Filter': '/Standard', '/V': 1, '/R': 2, '/O': b'<00>', '/U': b'<00>', '/P': -4}


def font_docs():
    """Documents whose fonts, texts and metadata take every shape a report has to print."""
    out = {}
    text = b'BT /F1 12 Tf 50 300 Td (one) Tj 0 -40 Td (two (nested) \\\\ end) Tj ET'
    for name, fonts in {'no font': {}, 'type 3': {'/F1': {'/Type': '/Font', '/Subtype': '/Type3', '/Name': '/F1'}}, 'no name': {'/F1': {'/Type': '/Font', '/Subtype': '/Type1'}},
                        'no encoding': {'/F1': {'/Type': '/Font', '/Subtype': '/TrueType', '/BaseFont': '/ABCDEF+Some-Font'}},
                        'long': {'/F1': {'/Type': '/Font', '/Subtype': '/Type1', '/BaseFont': '/' + 'N' * 40, '/Encoding': '/WinAnsiEncoding'}},
                        'several': {'/F1': {'/Type': '/Font', '/Subtype': '/Type1', '/BaseFont': '/A'}, '/F2': {'/Type': '/Font', '/Subtype': '/MMType1', '/BaseFont': '/B', '/Encoding': {'/Differences': [65, '/B']}},
                                    '/F3': 8j, '/F4': 8j, '/F5': 9j}}.items():
        objs = {1: BASE[1], 2: {'/Type': '/Pages', '/Kids': [3j, 4j], '/Count': 2, '/MediaBox': [0, 0, 595, 842]},
                3: {'/Type': '/Page', '/Parent': 2j, '/Contents': 5j, '/Resources': {'/Font': fonts}}, 4: {'/Type': '/Page', '/Parent': 2j, '/Resources': {'/Font': {'/X': 8j}}},
                5: R.S({}, text), 6: {'/Title': b'(A title)', '/Author': b'<FEFF039100e9>', '/Producer': b'()', '/CreationDate': b'(D:20200101)'},
                8: {'/Type': '/Font', '/Subtype': '/TrueType', '/BaseFont': '/Shared', '/Encoding': '/MacRomanEncoding'}, 9: {'/Type': '/Font', '/Subtype': '/Type0', '/BaseFont': '/C', '/Encoding': '/Identity-H', '/DescendantFonts': [10j]},
                10: {'/Type': '/Font', '/Subtype': '/CIDFontType2', '/BaseFont': '/C'}}
        out['fonts: ' + name] = F.assemble([(objs, (), 'table', {'trailer': {'/Info': 6j}})], {}).data
    for form in ('table', 'packed'):
        out['encrypted ' + form] = F.assemble([({**BASE, 6: {'/Title': b'(\x01\x02)'}}, (), form, {'trailer': {'/Info': 6j, '/Encrypt': ENC}})], {}).data
    many = dict(BASE)
    for i in range(4, 40):
        many[i] = [1, 1.5, '/N', b'(s)', None, True, {}, [], R.S({'/Filter': '/ASCIIHexDecode'}, b'41>'), 7, -7, 0][i % 12]
    out['every type'] = F.assemble([(many, (), 'table', {})], {}).data
    out['every type packed'] = F.assemble([(many, (), 'packed', {})], {}).data
    out['empty streams'] = F.assemble([({**BASE, 4: R.S({}, b''), 5: R.S({'/Filter': '/FlateDecode'}, b'not flate'), 7: R.S({'/Filter': '/FlateDecode'}, R.encode(b'', ['/FlateDecode'])), 8: R.S({'/Filter': '/ASCIIHexDecode'}, b'  >'), 6: R.S({'/Filter': ['/ASCIIHexDecode', '/FlateDecode']}, b'')}, (), 'table', {})], {}).data
    names = list(SHORT)
    out['filters'] = F.assemble([({**BASE, **{10 + i: R.S({'/Filter': n}, b'<41>') for i, n in enumerate(names)}, **{30 + i: R.S({'/Filter': [n, '/FlateDecode']}, b'41>') for i, n in enumerate(names)},
                                   50: R.S({'/Filter': []}, b'x'), 51: R.S({'/Filter': ['/ASCII85Decode', '/ASCIIHexDecode', '/FlateDecode']}, R.encode(b'abc' * 9, ['/ASCII85Decode', '/ASCIIHexDecode', '/FlateDecode'])),
                                   60: {'/S': '/JavaScript', '/JS': b'(alert)'}, 61: {'/Type': '/Action', '/S': '/JavaScript', '/JS': 62j}, 62: R.S({'/JS': b'(x)'}, b'code')}, (), 'table', {})], {}).data
    return out


_DOCS = {}


def docs():
    if not _DOCS:
        for n in F.organisations():
            f = F.organisation(n)
            for i, e in enumerate(f.ends):
                _DOCS[f'{n}, revision {i}'] = f.data[:e]
        _DOCS.update({f'document {k}': v for k, v in c30.SEEDS.items()})
        _DOCS.update(font_docs())
    return _DOCS


class Escape(BaseException):
    pass


def call(argv, stdin=None):
    """Run the entry point in this process: (standard output as bytes)."""
    out = io.BytesIO()
    old = sys.argv, sys.stdout
    sys.argv = ['pdfsyntax'] + argv
    sys.stdout = io.TextIOWrapper(out, encoding='utf-8', newline='', write_through=True)
    try:
        try:
            cli.main()
        except SystemExit as e:
            expect(e.code in (None, 0), f'exit status {e.code}')
        sys.stdout.flush()
    finally:
        w = sys.stdout
        sys.argv, sys.stdout = old
        w.detach()
    return out.getvalue()


def lines(b):
    return b.decode('utf-8').split('\n')


def check_overview(out, data, name):
    doc = pdf.loads(data)
    s, m = pdf.structure(doc), pdf.metadata(doc)
    got = {}
    for l in lines(out):
        if ': ' in l:
            k, v = l.split(': ', 1)
            expect(k not in got, f'{k} printed twice')
            got[k] = v
    want = {k: str(v) for k, v in s.items()}
    for k, v in m.items():
        want[k] = '#Encrypted#' if v and s['Encrypted'] else str(v)
    expect(got == want, lambda: f'overview {got}, expected {want}')


def check_disasm(out, data, name):
    ls = [l for l in lines(out) if l]
    at = 0
    kinds = []
    for l in ls:
        if l[0] != '+':
            continue
        m = re.match(r'\+ (\d+) +\[(\d+) *\] (.*)', l)
        expect(m, lambda: f'unexpected line {l!r}')
        expect(int(m[1]) == at, lambda: f'{l!r} should start at {at}')
        at += int(m[2])
        kinds.append(m[3].split()[0])
    expect(at == len(data), f'the dump covers {at} of {len(data)} bytes')
    fd = pdf.bdata_provider(data)
    secs = pdf.file_object_map(fd)
    want = [x for t in secs for x in disasm_lines(t)]
    got = []
    for l in ls:
        expect(l[0] in '+-', lambda: f'unexpected line {l!r}')
        t = l.split(']', 1)[1].split() if l[0] == '+' else l[1:].split()
        ratio = next((x for x in t[:2] if re.fullmatch(r'\d+%|!!', x)), None) if l[0] == '+' else None
        k = next((i for i, x in enumerate(t) if x in ('comment', 'void', 'ind_obj', 'xreftable', 'startxref', 'xref')), None)
        expect(k is not None, lambda: f'unexpected line {l!r}')
        filters = next((x for x in t[:k] if x[0] == '_'), '')
        got.append((l[0], [int(x.rstrip(',')) for x in t[:k] if re.fullmatch(r'\d+,?', x)], t[k], [int(x) if x.isdigit() else x for x in t[k + 1:]], ratio, filters, l))
    expect(len(got) == len(want), lambda: f'{len(got)} lines, expected {len(want)}')
    for (sign, nums, kind, rest, ratio, filters, l), (wsign, wnums, wkind, wrest, wratio, wfilters, wkeys) in zip(got, want):
        expect((sign, nums, kind) == (wsign, wnums, wkind) and rest[:len(wrest)] == wrest, lambda: f'line {l!r}, expected {wsign} {wnums} {wkind} {wrest}')
        expect(wratio is None or ratio == wratio or wratio != '!!' and ratio != '!!' and abs(int(ratio[:-1]) - int(wratio[:-1])) <= 1, lambda: f'line {l!r}, expected ratio {wratio}')
        expect(filters == wfilters, lambda: f'line {l!r}, expected filters {wfilters!r}')
        keys = [x for x in rest[len(wrest):] if type(x) == str and re.match('/[A-Za-z]+=', x)]
        expect(wkeys is None or keys == wkeys, lambda: f'line {l!r}, expected the details {wkeys}')
        expect(filters == wfilters, lambda: f'line {l!r}, expected filters {wfilters!r}')
        keys = [x for x in rest[len(wrest):] if type(x) == str and re.match('/[A-Za-z]+=', x)]
        expect(wkeys is None or keys == wkeys, lambda: f'line {l!r}, expected the details {wkeys}')


SHORT = {'/ASCIIHexDecode': 'AHex', '/ASCII85Decode': 'A85', '/LZWDecode': 'LZW', '/FlateDecode': 'Flate', '/RunLengthDecode': 'RunL', '/CCITTFaxDecode': 'Fax', '/JBIG2Decode': 'JBIG2', '/DCTDecode': 'DCT', '/JPXDecode': 'JPX', '/Crypt': 'Crypt'}


def detail_keys(d, keys):
    """The details shown for a dictionary, None when a value is not a number or a reference."""
    if any(type(d.get(k)) not in (int, complex, type(None)) for k in keys):
        return None
    return [f'{k}={d[k]}' if type(d[k]) == int else f'{k}={int(d[k].imag)},{int(d[k].real)}' for k in keys if d.get(k) is not None]


def disasm_lines(section):
    """(sign, numbers before the kind, kind, first words after the kind, ratio, filters, details) of the lines that show a section of the file map."""
    start, end, kind, c = section
    if kind == 'IND_OBJ':
        o = c['obj']
        cl = 'dict' if type(o) == dict else 'array' if type(o) == list else 'int' if type(o) == int else 'stream' if type(o) == pdf.Stream else 'other'
        ratio, filters, keys = None, '', []
        if cl == 'stream':
            ratio = '%d%%' % (len(o['encoded']) * 100 // len(o['stream'])) if len(o['stream']) else '!!'
            flt = o['entries'].get('/Filter')
            filters = ''.join('_' + SHORT.get(f, '') for f in (flt if type(flt) == list else [flt]))
            keys = detail_keys(o['entries'], ['/Root', '/Prev', '/N', '/First'])
        elif cl == 'dict':
            keys = detail_keys(o, ['/Linearized'])
        typ = (o['entries'] if cl == 'stream' else o).get('/Type') if cl in ('stream', 'dict') else None
        tail = [cl] + ([typ] if type(typ) == str else [])
        if c.get('env_num'):
            return [('-', [end[1], end[2], c['env_num']], 'ind_obj', [f"{c['o_num']},"] + tail, None, filters, keys)]
        return [('+', [], 'ind_obj', [f"{c['o_num']},{c['o_gen']}"] + tail, ratio, filters, keys)]
    out = []
    if kind == 'XREFTABLE':
        trailer = c['trailer']
        out.append(('+', [], 'xreftable', [], None, '', detail_keys(trailer, ['/XRefStm', '/Prev'] if '/XRefStm' in trailer else ['/Root', '/Prev'])))
    if kind in ('XREFTABLE', 'XREFSTREAM'):
        for x in c['table']:
            if len(x) == 2:
                continue
            _, index, num, gen, s = x[3][:5]
            way = [] if kind == 'XREFTABLE' else ['abs' if x[3][5] is None else f'{x[3][5]},']
            out.append(('-', [], 'xref', [f'{num},{gen}'] + way + [index, 'inuse' if s == b'n' else 'free'], None, '', []))
        return out
    if kind == 'STARTXREF':
        return [('+', [], 'startxref', [int(c)], None, '', [])]
    if kind == 'COMMENT':
        try:
            words = c[:8 if c[:4] == b'%PDF' else 5 if c[:5] == b'%%EOF' else 10].decode('ascii').split()
        except UnicodeDecodeError:
            words = []
        return [('+', [], 'comment', [int(w) if w.isdigit() else w for w in words], None, '', None)]
    return [('+', [], kind.lower(), [], None, '', [])]


def check_text(out, data, name):
    doc = pdf.loads(data)
    want = ''.join(pdf.extract_page_text(doc, i) + '\n' for i in range(len(pdf.pages(doc))))
    expect(out.decode('utf-8') == want, lambda: f'text {out!r}, expected {want!r}')


def check_fonts(out, data, name):
    fs = pdf.fonts(pdf.loads(data))
    rows = [l.rstrip() for l in lines(out) if l.strip()]
    expect(rows and rows[0].split() == ['Name', 'Type', 'Encoding', 'Obj', 'Pages'], lambda: f'header {rows[:1]}')
    want = []
    for k, f in fs.items():
        ref = f'{int(k.imag)},{int(k.real)}' if isinstance(k, complex) else '-'
        want.append((f['name'][:30] + ' ' + f['type'] + ' ' + f['encoding'][:16] + ' ' + ref + ' ' + str(len(f['pages']))).split())
    got = [r.split() for r in rows[1:]]
    expect(sorted(got) == sorted(want), lambda: f'rows {got}, expected {want}')


def check_browse(out, data, name):
    import html
    t = out.decode('utf-8')
    expect(t.lstrip()[:15].lower().startswith('<!doctype html') and '</body>' in t, lambda: f'not a page: {t[:60]!r}')
    expect(html.escape(os.path.basename(name)) in t, 'the page does not name the file')


def check_hexdump(out, data, name):
    expect(out.decode('utf-8') == pdf.hexdump(pdf.bdata_provider(data)) + '\n', 'not the hex dump of the file')


def check_compress(out, data, name):
    p = os.path.join(scratch(), 'want.pdf')
    pdf.writefile(pdf.compress(pdf.loads(data)), p)
    with open(p, 'rb') as f:
        want = f.read()
    os.unlink(p)
    expect(out == want, lambda: f'{len(out)} bytes written, expected the {len(want)} bytes the library gives')


CHECKS = {c: globals()['check_' + c] for c in COMMANDS}
OUTPUTS = [None, 'new', 'longer', 'shorter', 'other directory', 'input']
FILENAMES = ['in.pdf', 'a file.pdf', 'a<b>&"c.pdf', 'é中.pdf', 'noextension', '.hidden.pdf', '%d{0}.pdf']


def snapshot(d):
    out = {}
    for root, _, names in os.walk(d):
        for n in names:
            p = os.path.join(root, n)
            with open(p, 'rb') as f:
                out[os.path.relpath(p, d)] = f.read()
    return out


def run(ch, data, command, output, filename, how, runner):
    d = tempfile.mkdtemp(dir=scratch())
    here = os.getcwd()
    try:
        os.mkdir(os.path.join(d, 'sub'))
        src = os.path.join(d, filename)
        with open(src, 'wb') as f:
            f.write(data)
        os.chmod(src, 0o444)
        os.utime(src, (1000000000, 1000000000))
        target = None
        if output:
            target = {'new': 'out.pdf', 'longer': 'out.pdf', 'shorter': 'out.pdf', 'other directory': 'sub/out.pdf', 'input': filename}[output]
            if output in ('longer', 'shorter'):
                with open(os.path.join(d, target), 'wb') as f:
                    f.write(b'x' * (len(data) * 3 if output == 'longer' else 3))
        before = snapshot(d)
        if how == 'relative':
            os.chdir(d)
            arg = filename
            targ = target
        elif how == 'from below':
            os.chdir(os.path.join(d, 'sub'))
            arg = '../' + filename
            targ = target and '../' + target
        else:
            arg = src
            targ = target and os.path.join(d, target)
        argv = [command, arg]
        if targ:
            argv = ch.dev([argv + ['-o', targ], argv + ['--output', targ], [command, '-o', targ, arg]])
        out = runner(argv)
        os.chdir(here)
        after = snapshot(d)
        if output != 'input':
            expect(after.get(filename) == data and os.stat(src).st_mtime == 1000000000, f'{command} modified its input')
        extra = {k for k in set(before) | set(after) if before.get(k) != after.get(k)}
        expect(extra == ({target} if target else set()), lambda: f'{command} changed the files {sorted(extra)}')
        if target:
            expect(out == b'', f'{command} prints {out[:100]!r} besides writing the file')
            out = after[target]
        CHECKS[command](out, data, filename)
        return out
    finally:
        os.chdir(here)
        shutil.rmtree(d, ignore_errors=True)


def in_process(argv):
    return call(argv)


def module(argv):
    r = subprocess.run([sys.executable, '-m', 'pdfsyntax'] + argv, env={**os.environ, 'PYTHONPATH': os.environ.get('PDFSYNTAX_REPO', '/repo'), 'PYTHONIOENCODING': 'utf-8', 'PYTHONDONTWRITEBYTECODE': '1'},
                       stdin=subprocess.DEVNULL, capture_output=True, timeout=60)
    expect(r.returncode == 0, lambda: f'exit status {r.returncode}: {r.stderr.decode()[-400:]}')
    return r.stdout


def h_all(ch):
    """Every command on every document."""
    name = ch.pick(sorted(docs()))
    command = ch.pick(COMMANDS)
    ch.note(f'{command} on {name}')
    ch.state((name, command))
    out = run(ch, docs()[name], command, None, 'in.pdf', 'absolute', in_process)
    ch.step()
    ch.outcome(out)


def h_places(names):
    """Every command, output, file name and way to designate the file."""
    def h(ch):
        name = ch.pick(names)
        command = ch.pick(COMMANDS)
        output = ch.pick(OUTPUTS if command == 'compress' else [None])
        filename = ch.pick(FILENAMES)
        how = ch.pick(['absolute', 'relative', 'from below'])
        ch.note(f'{command} on {name} as {filename!r} ({how}) to {output}')
        ch.state((name, command, output, filename, how))
        out = run(ch, docs()[name], command, output, filename, how, in_process)
        ch.step()
        ch.outcome((output, out))
    return h


def h_module(names):
    """The same through a real process."""
    def h(ch):
        name = ch.pick(names)
        command = ch.pick(COMMANDS)
        output = ch.pick([None, 'new'] if command == 'compress' else [None])
        ch.note(f'python -m pdfsyntax {command} on {name}, output {output}')
        ch.state((name, command, output))
        out = run(ch, docs()[name], command, output, 'in.pdf', ch.pick(['absolute', 'relative']), module)
        ch.step()
        ch.outcome((output, out))
    return h


def h_sequence(depth):
    """Commands one after the other on the same document: each reports the same as alone; compressing twice too."""
    def h(ch):
        name = ch.pick(['document A', 'fonts: several', 'packed flate, revision 0'])
        data = docs()[name]
        seq = []
        for k in range(depth):
            command = ch.pick(COMMANDS)
            seq.append(command)
            out = run(ch, data, command, ch.pick([None, 'input']) if command == 'compress' else None, 'in.pdf', 'absolute', in_process)
            ch.step()
            if command == 'compress':
                data = out
        ch.note(f'{seq} on {name}')
        ch.state((name, tuple(seq), data))
        ch.outcome(out)
    return h


def harnesses(tier):
    t = tier == 'thorough'
    return [Harness('commands', h_all, 0, 'every command on every document'),
            Harness('places', h_places(['document A', 'packed flate, revision 0'] + (['hybrid, revision 0', 'fonts: several'] if t else [])), 1, 'outputs and file names'),
            Harness('processes', h_module(sorted(docs()) if t else ['document A', 'document B', 'fonts: several']), 0, 'real processes'),
            Harness('sequences', h_sequence(3 if t else 2), 0, 'commands in sequence')]
