"""Builds the library from /repo's working tree in a scratch directory and runs
the bounded workers on it."""
import json, os, re, resource, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/vp/venv/bin/python'


def setup_sources():
    """the sources that setup.py names"""
    try: t = open(os.path.join(REPO, 'setup.py')).read()
    except OSError: return []
    out = set()
    for m in re.findall(r"os\.path\.join\(([^()]*\.cc')\)", t):
        x = [y.strip().strip("'\"") for y in m.split(',')]
        if x[0] == 'src' and os.path.exists(os.path.join(REPO, *x)): out.add('/'.join(x[1:]))
    return sorted(out)


def link_order():
    """setup.py's order: where two objects define the same weak symbol, the first one linked decides"""
    try: t = open(os.path.join(REPO, 'setup.py')).read()
    except OSError: return []
    return ['/'.join(y.strip().strip("'\"") for y in m.split(',')[1:]) for m in re.findall(r"os\.path\.join\(([^()]*\.cc')\)", t)]


def pyinc():
    r = subprocess.run([PY, '-c', 'import sysconfig;print(sysconfig.get_paths()["include"]);print(sysconfig.get_config_var("EXT_SUFFIX"))'], capture_output=True, text=True)
    return r.stdout.split()


class BuildError(Exception):
    pass


def build(d, jobs=8):
    """compile everything into d/lib"""
    inc, suf = pyinc()
    srcs = LIST
    have = [s for s in srcs if os.path.exists(os.path.join(REPO, 'src', s))]
    extra = [s for s in setup_sources() if s not in have]
    have += extra
    # the slowest first
    have.sort(key=lambda s: -os.path.getsize(os.path.join(REPO, 'src', s)) if s != 'graphillion/graphset.cc' else -10**9)
    os.makedirs(os.path.join(d, 'lib'), exist_ok=True)
    def one(s):
        o = os.path.join(d, s.replace('/', '_') + '.o')
        r = subprocess.run(['g++', '-std=gnu++17', '-DNDEBUG', '-DB_64', '-O1', '-fno-strict-overflow', '-fPIC', '-w', '-fopenmp', '-I' + inc, '-I%s/src' % REPO, '-I%s/src/SAPPOROBDD' % REPO, '-c', os.path.join(REPO, 'src', s), '-o', o], capture_output=True, text=True)
        if r.returncode: raise BuildError('%s does not compile: %s' % (s, r.stderr[-1500:]))
        return o
    with ThreadPoolExecutor(jobs) as ex: objs = dict(zip(have, ex.map(one, have)))
    order = {s: i for i, s in enumerate(link_order())}
    objs = [objs[s] for s in sorted(have, key=lambda s: (order.get(s, 10**6), s))]
    so = os.path.join(d, 'lib', '_graphillion' + suf)
    r = subprocess.run(['g++', '-shared', '-fopenmp', *objs, '-o', so], capture_output=True, text=True)
    if r.returncode: raise BuildError('link: ' + r.stderr[-1500:])
    for o in objs: os.unlink(o)
    return os.path.join(d, 'lib')


LIST = ['SAPPOROBDD/BDD.cc', 'SAPPOROBDD/BDDCT.cc', 'SAPPOROBDD/ZBDD.cc', 'SAPPOROBDD/bddc.cc', 'graphillion/chordal/chordal.cc', 'graphillion/degree_distribution/DegreeDistributionGraphs.cc',
        'graphillion/forbidden_induced/ForbiddenInducedSubgraphs.cc', 'graphillion/graphset.cc', 'graphillion/induced_graphs/InducedGraphs.cc', 'graphillion/induced_graphs/WeightedInducedGraphs.cc',
        'graphillion/odd_edges_subgraphs/OddEdgeSubgraphs.cc', 'graphillion/partition/BalancedPartition.cc', 'graphillion/partition/Partition.cc', 'graphillion/reconf.cc', 'graphillion/regular/RegularGraphs.cc',
        'graphillion/reliability/reliability.cc', 'graphillion/setset.cc', 'graphillion/util.cc', 'graphillion/variable_converter/variable_converter.cc', 'graphillion/zdd.cc', 'pygraphillion.cc']


def env(lib, scratch):
    e = dict(os.environ)
    e.update(PYTHONPATH='%s:%s' % (lib, REPO), PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', TMPDIR=scratch, OMP_NUM_THREADS='1')
    return e


def lim():
    resource.setrlimit(resource.RLIMIT_AS, (7 << 29, 7 << 29))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def readslot(path):
    try:
        with open(path, 'rb') as f:
            n = int.from_bytes(f.read(8), 'little')
            return f.read(n).decode('utf8', 'replace')
    except OSError:
        return ''


def runcase(lib, scratch, mod, case, timeout=60):
    """-> None when the case passes, else what fails"""
    p = os.path.join(scratch, 'case%d.json' % os.getpid())
    with open(p, 'w') as f: json.dump(case, f)
    try:
        r = subprocess.run([PY, os.path.join(HERE, 'worker.py'), '--case', mod, p], capture_output=True, text=True, errors='replace', timeout=timeout, env=env(lib, scratch), cwd=scratch, preexec_fn=lim)
    except subprocess.TimeoutExpired:
        return 'no answer within %d s' % timeout
    if r.returncode == 0: return None
    if r.returncode == 3: return r.stdout.strip()[-2000:]
    return 'the process ends with status %d: %s' % (r.returncode, (r.stdout + r.stderr).strip()[-600:])


def history(lib, scratch, h, timeout=300):
    """re-run a worker up to the failing case"""
    out = os.path.join(scratch, 'h%d.json' % os.getpid()); slot = out + '.slot'
    try:
        r = subprocess.run([PY, os.path.join(HERE, 'worker.py'), h['module'], h['prop'], h['tier'], str(h['seed']), str(h['idx']), str(h['n']), '0', slot, out, str(h['upto'])],
                           capture_output=True, text=True, errors='replace', timeout=timeout, env=env(lib, scratch), cwd=scratch, preexec_fn=lim)
    except subprocess.TimeoutExpired:
        return 'no answer within %d s, at %s' % (timeout, readslot(slot)[:1000])
    if r.returncode != 0: return 'the process ends with status %d: %s' % (r.returncode, (r.stdout + r.stderr).strip()[-600:])
    fl = json.load(open(out))['fails']
    return fl[-1]['what'] if fl else None


def explore(lib, scratch, mod, prop, tier, seed, budget, jobs=8):
    """run the workers; -> (summary, failures)"""
    procs = []
    for i in range(jobs):
        out = os.path.join(scratch, '%s_%s_%d.json' % (mod, prop, i)); slot = out + '.slot'; errf = open(out + '.err', 'wb')
        procs.append((i, out, slot, subprocess.Popen([PY, os.path.join(HERE, 'worker.py'), mod, prop, tier, str(seed), str(i), str(jobs), str(budget), slot, out], stdout=errf, stderr=errf, env=env(lib, scratch), cwd=scratch, preexec_fn=lim)))
        errf.close()
    end = time.time() + budget + (40 if mod in ('long', 'within') else 90)
    soft = mod in ('long', 'within')   # large inputs: running out of time or memory is no answer rather than a wrong one
    S = {'evaluations': 0, 'nontrivial': 0, 'skipped': 0, 'samples': [], 'kinds': {}, 'notes': []}
    fails = []
    for i, out, slot, p in procs:
        hung = False
        try: p.wait(max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            hung = True; p.kill(); p.wait()
        if p.returncode == 0 and os.path.exists(out) and not hung:
            r = json.load(open(out))
            for k in ('evaluations', 'nontrivial', 'skipped'): S[k] += r[k]
            for k, v in r['kinds'].items(): S['kinds'][k] = S['kinds'].get(k, 0) + v
            if i == 0: S['samples'] += r['samples']
            for f in r['fails']:
                if soft and 'MemoryError' in f['what']: S['notes'].append('out of memory at %s' % f['case']); continue
                fails.append({'module': mod, 'prop': prop, 'tier': tier, 'seed': seed, 'idx': i, 'n': jobs, 'upto': f['no'], 'case': f['case'], 'what': f['what'], 'certain': True})
        else:
            s = readslot(slot)
            err = open(out + '.err', 'rb').read().decode('utf8', 'replace')[-600:]
            if not s:
                S['notes'].append('worker %d ended with status %s before its first case: %s' % (i, p.returncode, err)); 
                fails.append({'module': mod, 'prop': prop, 'tier': tier, 'seed': seed, 'idx': i, 'n': jobs, 'upto': 1, 'case': None, 'what': 'the library cannot be loaded: ' + err, 'certain': False})
                continue
            no, _, cs = s.partition(' ')
            S['evaluations'] += int(no)
            try: case = json.loads(cs)
            except ValueError: case = None
            if soft and (hung or 'bad_alloc' in err): S['notes'].append('worker %d: %s at case %s' % (i, 'no answer' if hung else 'out of memory', cs[:300])); continue
            fails.append({'module': mod, 'prop': prop, 'tier': tier, 'seed': seed, 'idx': i, 'n': jobs, 'upto': int(no), 'case': case, 'what': 'the process %s: %s' % ('gives no answer' if hung else 'ends with status %s' % p.returncode, err), 'certain': False})
    return S, fails


def confirm(lib, scratch, f):
    """a failing case that fails again, alone or after the same history; None otherwise"""
    if f['case'] is not None:
        w = runcase(lib, scratch, f['module'], f['case'])
        if w: return dict(kind='case', module=f['module'], case=f['case'], what=w)
    w = history(lib, scratch, f)
    if w: return dict(kind='history', what=w, **{k: f[k] for k in ('module', 'prop', 'tier', 'seed', 'idx', 'n', 'upto', 'case')})
    if f['certain']: return dict(kind='history', what=f['what'] + ' (seen once)', **{k: f[k] for k in ('module', 'prop', 'tier', 'seed', 'idx', 'n', 'upto', 'case')})
    return None
