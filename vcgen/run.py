import sys, time
sys.path.insert(0, __import__('os').path.dirname(__import__('os').path.abspath(__file__)))
import z3, theory as T, sym, builtins_, contracts, front, prove
from deduct import TUS, opusers, executor
def main():
    names = sys.argv[1:]
    ix = front.Index(TUS)
    users = opusers(ix)
    for key, con in contracts.CON.items():
        if names and not any(n in key for n in names): continue
        if getattr(con,'assumed',None): continue
        ex = executor(ix, users, con)
        t0 = time.time()
        try: obls = ex.verify(con)
        except sym.Unsupported as err:
            print(key, 'UNSUPPORTED', err); continue
        items = []
        for i, o in enumerate(obls):
            txt, th = prove.build(o, ex.extfacts)
            items.append((i, txt))
        t1 = time.time()
        res = prove.run_all(items)
        bad = [(obls[i], r) for i, r in res.items() if r[0] != 'unsat']
        print('%-50s paths %d obls %d discharged %d gen %.1fs solve %.1fs max %.1f' % (key, ex.paths, len(obls), len(obls) - len(bad), t1 - t0, time.time() - t1, max([r[2] for r in res.values()] or [0])))
        for o, r in bad:
            print('    FAIL', o.line, o.name, r[0], r[3])
        if '-d' in sys.argv or len(bad):
            for i, r in res.items():
                if r[0] != 'unsat': open('/tmp/fail_%s_%d.smt2' % (sym.short(key).replace(':', '_').replace('/','div'), i), 'w').write(items[i][1])
if __name__ == '__main__': main()
