#!/opt/venv/bin/python
"""Entry point of every check:  run.py C01 [--tier quick|thorough]   or   run.py --replay FILE"""
import importlib
import json
import os
import re
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
os.environ.setdefault('PYTHONDONTWRITEBYTECODE', '1')
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.dont_write_bytecode = True
REPO = os.environ.get('PDFSYNTAX_REPO', '/repo')
sys.path[:0] = [REPO, ROOT]

from mc import engine  # noqa: E402

FINDINGS = os.path.join(ROOT, 'known_findings.txt')


def load_findings(prop):
    """Lines 'known: property=Cnn key=<key> <what fails>' (lines 'fixed: ...' suppress nothing)."""
    out = {}
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS, encoding='utf-8'):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', line.strip())
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out


def load_check(prop, tier):
    mod = importlib.import_module('mc.checks.' + prop.lower())
    import pdfsyntax
    if not os.path.realpath(pdfsyntax.__file__).startswith(os.path.realpath(REPO) + os.sep):
        sys.exit('pdfsyntax does not come from ' + REPO)
    return mod, mod.harnesses(tier)


def replay(path):
    v = json.load(open(path))
    mod, hs = load_check(v['property'], v['tier'])
    hi = [h.name for h in hs].index(v['harness'])
    engine._init(hs, frozenset())
    print('case:', *v['case'], sep='\n  ')
    err = engine.replay_history(hi, v['history'])
    if err:
        print('FAILS:', err[0])
        return 1
    print('passes')
    return 0


def main():
    """Run with a scratch directory of its own, removed at the end with those of the workers."""
    import shutil
    import tempfile
    base = '/dev/shm' if os.path.isdir('/dev/shm') and os.access('/dev/shm', os.W_OK) else None
    d = os.environ['MC_SCRATCH'] = tempfile.mkdtemp(prefix='mc_pdfsyntax_', dir=base)
    try:
        return check()
    finally:
        shutil.rmtree(d, ignore_errors=True)


def check():
    if sys.argv[1] == '--replay':
        return replay(sys.argv[2])
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.monotonic()
    known = load_findings(prop)
    mod = None
    load_error = None
    try:
        mod, hs = load_check(prop, tier)
    except Exception as e:     # the library cannot even be imported
        import traceback
        traceback.print_exc()
        return 2
    cap = 780.0 if tier == 'quick' else 6 * 3600.0
    res = engine.explore(hs, frozenset(known), cap=cap)
    wall = time.monotonic() - t0
    t = res.total
    res.samples.sort(key=lambda s: -s[0])
    samples, seen = [], set()
    for want in hs:
        for c, s in res.samples:
            if s.startswith(want.name + ':') and s not in seen:
                samples.append(s[:600])
                seen.add(s)
                break
    samples += [s[:600] for c, s in res.samples if s not in seen][:4]
    exhaustive = res.violation is None and res.incomplete is None
    cov = {
        'states': len(t.states), 'transitions': t.transitions,
        'traces_validated_against_impl': t.execs,
        'samples': samples or ['(none)'],
        'exhaustive': exhaustive,
        'choice_points': t.choice_points,
        'distinct_outcomes': len(t.outcomes),
        'pruned_combinations': t.pruned,
        'executions_by_deviations': {str(k): v for k, v in sorted(t.by_cost.items())},
        'harnesses': {h.name: {'deviation_bound': h.bound, 'space': h.note,
                               'executions': res.per[h.name].execs, 'states': len(res.per[h.name].states),
                               'transitions': res.per[h.name].transitions,
                               'outcomes': len(res.per[h.name].outcomes)} for h in hs},
        'explanation': 'states = distinct canonical model states; transitions = operations applied to the real code '
                       'and compared with the reference model; traces = complete executions of the real code '
                       'compared with the model. Direct exploration of the implementation: no separate model '
                       'that could drift from it.',
    }
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': cov,
          'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])) + ['behaviour outside the stated alphabets and bounds is not covered'],
          'wall_s': round(wall, 2), 'violations': 1 if res.violation else 0,
          'known_findings_seen': dict(t.known)}
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for k, what in known.items():
        print(f'KNOWN-FINDING: property={prop} {what} [key={k}, met {t.known.get(k, 0)} times in this run]')
    if res.violation:
        v = res.violation
        os.makedirs(os.path.join(ROOT, 'replays'), exist_ok=True)
        path = os.path.join(ROOT, 'replays', f"{prop}-{engine.h64((v['harness'], v['prefix'])):016x}.json")
        rec = {'property': prop, 'tier': tier, 'harness': v['harness'], 'history': v['history'],
               'reproduces_alone': v['alone'], 'case': v['case'], 'message': v['msg'], 'key': v['key'],
               'how_to_replay': f'/opt/venv/bin/python /verif/mc/run.py --replay {path}'}
        with open(path, 'w') as f:
            json.dump(rec, f, indent=1)
        print(f"{prop} [{v['harness']}] after {t.execs} executions, {v['cost']} deviation(s)"
              + ('' if v['alone'] else ' (only after other executions in the same process: shared state)'))
        for line in v['case']:
            print('   ', line)
        print('   =>', v['msg'])
        print(f'VIOLATION property={prop} replay={path}')
        return 1
    if res.incomplete:
        print(f'{prop}: INCOMPLETE: {res.incomplete}; executions={t.execs}')
        return 2
    if t.execs == 0 or len(t.states) < 2:
        print(f'{prop}: vacuous exploration')
        return 2
    print(f'{prop}: held on {t.execs} executions, {len(t.states)} states, {t.transitions} transitions, '
          f'{len(t.outcomes)} outcomes, {t.pruned} pruned, {wall:.1f} s ({tier})')
    return 0


if __name__ == '__main__':
    sys.exit(main())
