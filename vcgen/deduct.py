"""The deductive step of a check: generate the obligations of a set of contracts
and of every contract they call, from /repo's current source, and discharge them."""
import multiprocessing as mp, os, time, traceback
import z3
import theory as T, sym, sym4, builtins_, contracts, contracts4, front, prove

TUS = ['SAPPOROBDD/ZBDD.cc', 'SAPPOROBDD/BDDCT.cc', 'graphillion/zdd.cc', 'graphillion/setset.cc', 'graphillion/reconf.cc', 'SAPPOROBDD/bddc.cc']
CACHEFNS = ('BDD_CacheZBDD', 'BDD_CacheInt', 'BDD_CacheEnt', 'bddrcache', 'bddwcache', 'BDD_CacheBDD')


def opusers(ix):
    """operation-cache codes -> the functions that use them"""
    users = {}
    for f in ix.fns.values():
        codes = set()
        def w(y):
            if isinstance(y, dict):
                if y.get('k') == 'call' and y.get('fn', {}).get('short') in CACHEFNS:
                    a = y['args'][0]
                    while a['k'] == 'cast': a = a['e']
                    if a['k'] == 'int': codes.add(int(a['v']))
                for z in y.values(): w(z)
            elif isinstance(y, list):
                for z in y: w(z)
        w(f.get('body'))
        for c in codes: users.setdefault(c, []).append(f['key'])
    return users


def executor(ix, users, con=None):
    if con is not None and con.layer == 'id': ex = sym4.BddExec(ix, contracts.CON, contracts4.BI4)
    else: ex = sym.Exec(ix, contracts.CON, builtins_.BI)
    ex.cacheuse = set()
    def opcache(op, a, k):
        out = []
        for u in users.get(int(str(op)), []):
            c = contracts.CON.get(u)
            if c is None or not getattr(c, 'cache', None):
                out.append(('shared with %s, which has no contract' % u, None, None)); continue
            d, sp = c.cache(ex, a, k)
            out.append((sym.short(u), d, sp))
        return out
    ex.opcache = opcache
    return ex


_G = {}


def gen(key):
    """runs in a forked process: one function, fresh counters"""
    ix, users = _G['ix'], _G['users']
    con = contracts.CON[key]
    t0 = time.time()
    r = {'key': key, 'status': 'ok', 'obls': [], 'callees': [], 'inlined': [], 'lemmas': [], 'vac': []}
    try:
        if (con.fn or key) not in ix.fns:
            r['status'] = 'missing'
            return r
        ex = executor(ix, users, con)
        obls = ex.verify(con)
        lem = set()
        for o in obls:
            txt, th = prove.build(o, ex.extfacts)
            lem |= set(th)
            r['obls'].append((o.name, o.kind, o.line, txt))
        r['lemmas'] = sorted(lem)
        for pc in ex.finals[:12]:
            o = sym.Obl('reachable', pc, z3.BoolVal(False), 'vacuity', 0, key)
            r['vac'].append(prove.build(o, ex.extfacts)[0])
        r['callees'] = sorted(ex.callees); r['inlined'] = sorted(ex.inlined); r['paths'] = ex.paths
    except sym.Unsupported as err:
        r['status'] = 'unsupported'; r['why'] = str(err)[:400]
    except RecursionError:
        r['status'] = 'unsupported'; r['why'] = 'recursion limit'
    except Exception as err:
        r['status'] = 'unsupported'; r['why'] = 'internal: %s' % (traceback.format_exc()[-600:])
    r['gen_s'] = time.time() - t0
    return r


def solve(item):
    i, txt, t, plan = item
    return i, prove.run_one(txt, t, plan)


VACPLAN = [('z3-ematch', 1, 0)]


def run(roots, timeout=20, jobs=None, log=lambda *a: None):
    """-> dict with everything the evidence needs"""
    jobs = jobs or os.cpu_count() or 4
    t0 = time.time()
    out = {'functions': [], 'failed': [], 'undecided': [], 'obligations': 0, 'discharged': 0, 'solvers': {}, 'solver_s': 0.0, 'assumed_contracts': {}, 'lemmas': {}, 'vacuous': []}
    try:
        _G['ix'] = front.Index(TUS)
    except Exception as err:
        out['undecided'].append({'function': '*', 'why': 'the source cannot be read: %s' % str(err)[:500]})
        out['wall_s'] = time.time() - t0
        return out
    _G['users'] = opusers(_G['ix'])
    out['front_s'] = time.time() - t0
    done, res = set(), {}
    ctx = mp.get_context('fork')
    todo = [k for k in roots]
    with ctx.Pool(jobs, maxtasksperchild=1) as pool:
        pend = {}
        def add(k):
            if k in done: return
            done.add(k)
            c = contracts.CON[k]
            if getattr(c, 'assumed', None): out['assumed_contracts'][k] = c.assumed
            else: pend[k] = pool.apply_async(gen, (k,))
        for k in todo: add(k)
        while pend:
            for k in [k for k, a in pend.items() if a.ready()]:
                try: r = pend[k].get()
                except Exception as err: r = {'key': k, 'status': 'unsupported', 'why': 'generator died: %s' % err, 'obls': [], 'callees': [], 'inlined': [], 'lemmas': [], 'vac': []}
                del pend[k]
                res[k] = r
                for c in r['callees']: add(c)
            time.sleep(.02)
    out['gen_s'] = time.time() - t0
    # lemmas first: the obligations rest on them
    names = sorted(T.LEM)
    items = []
    idx = {}
    n = 0
    for nm, txt in prove.lemma_items():
        idx[n] = ('lemma', nm); items.append((n, txt, timeout, None)); n += 1
    for k, r in res.items():
        for i, (nm, kind, line, txt) in enumerate(r['obls']):
            idx[n] = ('obl', k, i); items.append((n, txt, timeout, None)); n += 1
        for j, txt in enumerate(r['vac']):
            idx[n] = ('vac', k, j); items.append((n, txt, 2, VACPLAN)); n += 1
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(jobs) as ex: sol = dict(ex.map(solve, items))
    vac = {}
    st = {}
    for i, v in sol.items():
        w = idx[i]
        out['solver_s'] += v[2]
        if w[0] == 'lemma':
            out['lemmas'][w[1]] = v[0] == 'unsat'
            out['obligations'] += 1; out['discharged'] += v[0] == 'unsat'
            if v[0] != 'unsat': out['undecided'].append({'function': 'lemma ' + w[1], 'why': 'not proved: %s' % (v[3],)})
        elif w[0] == 'obl':
            k = w[1]; nm, kind, line, txt = res[k]['obls'][w[2]]
            s = st.setdefault(k, [0, 0, 0.0]); s[0] += 1; s[2] += v[2]
            out['obligations'] += 1
            if v[0] == 'unsat':
                out['discharged'] += 1; s[1] += 1
                out['solvers'][v[1]] = out['solvers'].get(v[1], 0) + 1
            else: out['failed'].append({'function': k, 'obligation': nm, 'kind': kind, 'line': line, 'verdict': v[0], 'solvers': [list(x) for x in v[3]], 'smt2': txt})
        else:
            vac.setdefault(w[1], []).append(v[0])
    for k, r in res.items():
        f = {'function': k, 'status': r['status'], 'obligations': st.get(k, [0, 0, 0])[0], 'discharged': st.get(k, [0, 0, 0])[1], 'solver_s': round(st.get(k, [0, 0, 0.0])[2], 2), 'inlined': r['inlined']}
        if r['status'] != 'ok': out['undecided'].append({'function': k, 'why': r['status'] + ': ' + r.get('why', 'no function of this name and type')})
        elif not vac.get(k) or all(x == 'unsat' for x in vac[k]):
            # an unreachable end would make the contract hold of anything
            out['vacuous'].append(k); out['undecided'].append({'function': k, 'why': 'no return path is reachable under the precondition'})
            f['status'] = 'vacuous'
        f['return_paths'] = r.get('paths', 0)
        out['functions'].append(f)
    out['lemmas_used'] = sorted(set(x for r in res.values() for x in r['lemmas']))
    out['wall_s'] = time.time() - t0
    return out


if __name__ == '__main__':
    import sys, json
    roots = [k for k in contracts.CON if len(sys.argv) < 2 or any(a in k for a in sys.argv[1:])]
    o = run(roots)
    print(json.dumps({k: v for k, v in o.items() if k not in ('functions', 'lemmas', 'failed')}, indent=1)[:3000])
    for f in o['failed']: print('FAIL', f['function'], f['line'], f['obligation'], f['solvers'])
