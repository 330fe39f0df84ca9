"""Discharging obligations: each VC is written as SMT-LIB and given to a
portfolio of solvers (z3-new with E-matching only, z3-new default, cvc5)."""
import os, subprocess, sys, tempfile, time, threading, queue, shutil
import z3
import theory as T

TIMEOUT = int(os.environ.get('VC_TIMEOUT', '20'))


def smt2(axioms, pc, goal, extra=()):
    s = z3.Solver()
    for x in axioms: s.add(x)
    for x in extra: s.add(x)
    for x in pc: s.add(x)
    s.add(z3.Not(goal))
    return s.to_smt2()


def build(ob, extfacts):
    rel = list(ob.pc) + [ob.goal]
    syms = set()
    ext = list(extfacts)
    ch = T.select(rel + ext)
    return smt2([a[2] for a in ch], ob.pc, ob.goal, ext), [a[0] for a in ch if a[1] == 'THEORY']


def lemma_items():
    out = []
    for nm in T.LEM:
        asm, g = T.lemma_goal(nm)
        out.append((nm, smt2([a[2] for a in T.lemma_axioms(nm)], asm, g)))
    return out


def configs(t, seed=0):
    em = ['z3-new', '-smt2', '-T:%d' % t, 'smt.mbqi=false', 'auto_config=false', 'smt.random_seed=%d' % seed]
    return {'z3-ematch': em, 'z3-ematch-rel0': em + ['smt.relevancy=0'], 'z3-ematch-eager': em + ['smt.qi.eager_threshold=100'], 'z3-ematch-case': em + ['smt.case_split=3'],
            'cvc5': ['cvc5', '--lang=smt2', '--tlimit=%d' % (t * 1000)],
            'z3': ['z3-new', '-smt2', '-T:%d' % t], 'z3-4.8': ['z3', '-smt2', '-T:%d' % t, 'smt.mbqi=false', 'auto_config=false']}


PLAN = [('z3-ematch', .5, 0), ('cvc5', .5, 0), ('z3-ematch', .5, 1), ('z3-ematch-rel0', .5, 2), ('z3-ematch-eager', .5, 3), ('z3-4.8', .5, 0), ('z3', 1, 0)]


def run_one(text, t, plan=None):
    """returns (verdict, solver, seconds, detail)"""
    d = tempfile.mkdtemp(prefix='vc')
    p, q = os.path.join(d, 'q.smt2'), os.path.join(d, 'c.smt2')
    with open(p, 'w') as fh: fh.write(text)
    with open(q, 'w') as fh: fh.write('(set-logic ALL)\n' + text)
    t0 = time.time()
    res = []
    try:
        for name, frac, seed in plan or PLAN:
            tt = max(1, int(t * frac))
            cmd = configs(tt, seed)[name] + [q if name == 'cvc5' else p]
            try:
                r = subprocess.run(cmd, capture_output=True, text=True, timeout=tt + 5)
                out = r.stdout.strip().split('\n')[0] if r.stdout.strip() else 'error ' + r.stderr[:200]
            except subprocess.TimeoutExpired:
                out = 'timeout'
            res.append((name, out))
            if out == 'unsat': return 'unsat', name, time.time() - t0, res
            if out == 'sat': return 'sat', name, time.time() - t0, res
        return 'unknown', '', time.time() - t0, res
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run_all(items, t=None, workers=None):
    """items: list of (id, text) -> {id: (verdict, solver, secs, detail)}"""
    from concurrent.futures import ThreadPoolExecutor
    t = t or TIMEOUT
    out = {}
    with ThreadPoolExecutor(workers or os.cpu_count() or 4) as ex:
        fs = {k: ex.submit(run_one, txt, t) for k, txt in items}
        for k, f in fs.items(): out[k] = f.result()
    return out
