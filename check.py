#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--budget S] | check.py --replay FILE

Decides one property: (1) generates the proof obligations of the functions the
property depends on from /repo's current source and discharges them; (2) runs the
labelled bounded stand-ins, which are also the replay engine for failed
obligations, on the library built from /repo's working tree."""
import os, sys
V = os.path.dirname(os.path.abspath(__file__))
VT = '/opt/veriftools/pyvenv/bin/python'
if os.environ.get('PYTHONHASHSEED') != '0' or not os.environ.get('VCHECK_PY'):
    import shutil
    os.environ['PYTHONHASHSEED'] = '0'; os.environ['VCHECK_PY'] = '1'; os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    py = shutil.which('python3-vt') or VT
    os.execv(py, [py, os.path.abspath(__file__)] + sys.argv[1:])
sys.path[:0] = [os.path.join(V, 'vcgen'), os.path.join(V, 'bounded'), V]
sys.setrecursionlimit(20000)
import json, re, shutil, tempfile, threading, time, traceback
import props, engine


def known(pid):
    """known findings: lines 'known: property=ID case=JSON # text'"""
    out = []
    p = os.path.join(V, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) module=(\S+) case=(\{.*\}) # (.*)', l.strip())
            if m and m.group(1) == pid: out.append((m.group(2), json.loads(m.group(3)), m.group(4)))
    return out


def main():
    a = sys.argv[1:]
    def opt(n, d):
        return a[a.index(n) + 1] if n in a else d
    if '--replay' in a: return replay(opt('--replay', None))
    pid = a[0]
    tier = opt('--tier', os.environ.get('VERIF_TIER', 'quick'))
    seed = int(opt('--seed', os.environ.get('VERIF_SEED', '1')))
    P = props.BYID[pid]
    budget = float(opt('--budget', props.BUDGET[tier]))
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix='vchk')
    try: return decide(P, pid, tier, seed, budget, t0, scratch)
    finally: shutil.rmtree(scratch, ignore_errors=True)


def decide(P, pid, tier, seed, budget, t0, scratch):
    V_ = []           # violations: (what, replay dict, input found)
    notes = []
    # the library is compiled while the obligations are generated
    lib = {}
    def dobuild():
        try: lib['path'] = engine.build(scratch)
        except Exception as e: lib['err'] = str(e)
    th = None
    if P.get('bounded'):
        th = threading.Thread(target=dobuild); th.start()
    D = {'functions': [], 'failed': [], 'undecided': [], 'obligations': 0, 'discharged': 0, 'solvers': {}, 'solver_s': 0, 'assumed_contracts': {}, 'lemmas': {}, 'lemmas_used': [], 'wall_s': 0}
    if P['roots']() or P.get('words'):
        try:
            if P['roots']():
                import deduct
                D = deduct.run(P['roots'](), timeout=20 if tier == 'quick' else 60)
            if P.get('words'):
                import words
                merge(D, words.run(timeout=20 if tier == 'quick' else 60))
        except Exception as err: D['undecided'].append({'function': '*', 'why': 'internal error: ' + traceback.format_exc()[-800:]})
        if D['failed']:
            # once more, with more time, before an obligation counts as failed
            import prove
            from concurrent.futures import ThreadPoolExecutor
            with ThreadPoolExecutor(8) as ex: again = list(ex.map(lambda o: prove.run_one(o['smt2'], 40), D['failed'][:24]))
            left = []
            for o, r in zip(D['failed'], again + [None] * len(D['failed'])):
                if r is not None and r[0] == 'unsat': D['discharged'] += 1; D['solvers'][r[1]] = D['solvers'].get(r[1], 0) + 1
                else: left.append(o)
            D['failed'] = left
    if tier == 'thorough' and D['obligations']:
        # the definitions and axioms of the theory hold in the model of finite families
        import selfcheck
        notes.append('axioms evaluated in the finite model: %s' % (selfcheck.check(),))
    # bounded stand-ins / search for a failing input
    B = []
    if th:
        th.join()
        if 'err' in lib:
            notes.append('the library does not build: ' + lib['err'])
            print('note: the library does not build, nothing was explored:', lib['err'][:1000])
        else:
            mods = P['bounded']
            tot = sum(m[1] for m in mods)
            b = budget * (2 if D['failed'] else 1)
            seen = set()
            for mod, w in mods:
                S, fails = engine.explore(lib['path'], scratch, mod, pid, tier, seed, b * w / tot)
                S['module'] = mod
                B.append(S)
                kn = [c for m, c, t in known(pid) if m == mod]
                for f in fails[:12]:
                    if f['case'] in kn: continue
                    r = engine.confirm(lib['path'], scratch, f)
                    if r is None:
                        notes.append('not reproduced: ' + json.dumps({k: f[k] for k in ('module', 'case', 'what')})[:600]); continue
                    V_.append((r['what'], r, True))
                    break
                if V_: break
            for m, c, t in known(pid):
                w = engine.runcase(lib['path'], scratch, m, c)
                if w: print('KNOWN-FINDING: property=%s %s' % (pid, t))
    if D['failed'] and not V_:
        o = D['failed'][0]
        V_.append(('obligation not discharged: %s, %s (line %s)' % (o['function'], o['obligation'], o['line']), {'kind': 'obligation'}, False))
    wall = time.time() - t0
    write_evidence(P, pid, tier, seed, D, B, V_, notes, wall)
    for u in D['undecided']: print('note: undecided by proof on this run: %s (%s)' % (u['function'], str(u['why'])[:200]))
    for n in notes: print('note:', n[:400])
    print('%s: %d of %d obligations discharged over %d functions; bounded: %d cases; %.0f s' % (pid, D['discharged'], D['obligations'], len(D['functions']), sum(s['evaluations'] for s in B), wall))
    if V_:
        what, r, found = V_[0]
        d = os.path.join(V, 'evidence', 'replay'); os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s.json' % pid)
        with open(path, 'w') as f:
            json.dump({'property': pid, 'what': what, 'replay': r, 'failed_obligations': [{k: (v if k != 'smt2' else v[:20000]) for k, v in o.items()} for o in D['failed'][:10]]}, f, indent=1)
        print('what fails:', what[:1500])
        for o in D['failed'][:8]: print('failed obligation: %s line %s: %s [%s]' % (o['function'], o['line'], o['obligation'], o['verdict']))
        print('VIOLATION property=%s replay=%s%s' % (pid, path, '' if found else ' no-failing-input-found'))
        return 1
    return 0


def merge(D, E):
    for k, v in E.items():
        if isinstance(v, list): D.setdefault(k, []); D[k] = D[k] + v
        elif isinstance(v, dict):
            d = D.setdefault(k, {})
            for x, y in v.items():
                if isinstance(y, (int, float)) and not isinstance(y, bool): d[x] = d.get(x, 0) + y
                else: d[x] = y
        elif isinstance(v, (int, float)): D[k] = D.get(k, 0) + v


def write_evidence(P, pid, tier, seed, D, B, V_, notes, wall):
    cov = {
        'obligations': D['obligations'], 'discharged': D['discharged'],
        'checker_cmd': 'python3-vt %s/check.py %s --tier %s' % (V, pid, tier),
        'trusted_base': props.TRUSTED + P.get('trusted', []) + ['assumed contract of %s: %s' % kv for kv in sorted(D['assumed_contracts'].items())],
        'functions_under_contract': D['functions'],
        'undecided': D['undecided'], 'failed': [{k: o[k] for k in ('function', 'obligation', 'line', 'verdict')} for o in D['failed']],
        'back_ends': D['solvers'], 'solver_seconds': round(D['solver_s'], 1), 'lemmas_proved': sum(1 for v in D['lemmas'].values() if v), 'theory_facts_used': D.get('lemmas_used', []),
        'bounded_not_proved': {'scope': P.get('bounded_scope', ''), 'runs': B},
        'evaluations': sum(s['evaluations'] for s in B), 'distinct_nontrivial': sum(s['nontrivial'] for s in B),
        'rule': props.RULE if any(m[0] in ('fam', 'pyapi') for m in P['bounded']) else props.RULE_GRAPH, 'samples': [x for s in B for x in s['samples']][:4],
        'notes': notes,
    }
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': P['level'], 'coverage': cov, 'assumptions': props.ASSUME + P.get('assume', []), 'wall_s': round(wall, 2), 'violations': len(V_)}
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    p = os.path.join(V, 'evidence', pid + '.json')
    with open(p + '.tmp', 'w') as f: json.dump(ev, f, indent=1)
    os.replace(p + '.tmp', p)


def replay(path):
    j = json.load(open(path)); r = j['replay']
    scratch = tempfile.mkdtemp(prefix='vchk')
    try:
        if r['kind'] == 'obligation':
            print('no input to replay; the obligation that failed:')
            for o in j['failed_obligations']: print(' ', o['function'], 'line', o['line'], o['obligation'], o['solvers'])
            return 1
        lib = engine.build(scratch)
        w = engine.runcase(lib, scratch, r['module'], r['case']) if r['kind'] == 'case' else engine.history(lib, scratch, r)
        print('fails: ' + w if w else 'passes')
        return 1 if w else 0
    finally: shutil.rmtree(scratch, ignore_errors=True)


if __name__ == '__main__':
    try: rc = main()
    except SystemExit: raise
    except BaseException:
        # a fault of the machinery decides nothing
        traceback.print_exc()
        print('note: internal error, nothing decided')
        rc = 0 if os.environ.get('VERIF_LENIENT') else 2
    sys.stdout.flush()
    os._exit(rc)
