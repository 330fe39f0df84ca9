"""worker.py MODULE PROP TIER SEED IDX N BUDGET SLOT OUT [UPTO] | worker.py --case MODULE FILE"""
import importlib, json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core
sys.setrecursionlimit(10000)
if sys.argv[1] == '--case':
    mod = importlib.import_module(sys.argv[2])
    case = json.load(open(sys.argv[3]))
    try:
        mod.run(case)
    except core.Mismatch as e:
        print('MISMATCH', e); sys.stdout.flush(); os._exit(3)
    except Exception as e:
        print('MISMATCH exception', type(e).__name__, e); sys.stdout.flush(); os._exit(3)
    print('OK'); sys.stdout.flush(); os._exit(0)
m, prop, tier, seed, idx, n, budget, slot, out = sys.argv[1:10]
upto = int(sys.argv[10]) if len(sys.argv) > 10 else None
mod = importlib.import_module(m)
r = core.work(mod, prop, tier, seed, int(idx), int(n), float(budget), slot, out, upto)
if upto is not None: print(json.dumps(r['fails']))
sys.stdout.flush()
os._exit(0)
