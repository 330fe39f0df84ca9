"""Bounded stand-ins and the replay engine: the real library (built from
/repo's working tree) is run on enumerated and random inputs and compared with
brute-force definitions.  A case is a JSON-able dict, so that every failing case
can be written to a replay file and run again."""
import json, mmap, os, random, sys, time, traceback


class Mismatch(Exception):
    pass


def check(ok, what, expected=None, got=None):
    if not ok: raise Mismatch('%s: expected %s, got %s' % (what, short(expected), short(got)))


def eq(got, expected, what):
    if got != expected: raise Mismatch('%s: expected %s, got %s' % (what, short(expected), short(got)))


def short(x, n=600):
    if isinstance(x, (set, frozenset)):
        try: x = sorted(canon(y) for y in x)
        except TypeError: pass
    s = repr(x)
    return s if len(s) <= n else s[:n] + '...'


def canon(y): return sorted(y, key=lambda z: (str(type(z)), z)) if isinstance(y, (set, frozenset)) else y


class Skip(Exception):
    pass


class Slot:
    """the case being run, readable by the parent when the process dies"""

    def __init__(self, path):
        self.f = open(path, 'w+b')
        self.f.truncate(1 << 18)
        self.m = mmap.mmap(self.f.fileno(), 1 << 18)

    def put(self, b):
        b = b[:(1 << 18) - 9]
        self.m[0:8] = len(b).to_bytes(8, 'little')
        self.m[8:8 + len(b)] = b


def readslot(path):
    try:
        with open(path, 'rb') as f:
            n = int.from_bytes(f.read(8), 'little')
            return f.read(n).decode('utf8', 'replace')
    except OSError:
        return ''


def work(mod, prop, tier, seed, idx, n, budget, slotpath, outpath, upto=None):
    """run this worker's share of the cases"""
    rng = random.Random('%s/%s/%d' % (seed, prop, idx))
    slot = Slot(slotpath) if slotpath else None
    t0 = time.time()
    cnt, nontriv, skipped, samples, kinds, fails = 0, 0, 0, [], {}, []
    seen = set()
    for case in mod.cases(prop, rng, tier, idx, n):
        if upto is not None and cnt >= upto: break
        if upto is None and budget and time.time() - t0 > budget: break
        cnt += 1
        js = json.dumps(case)
        if slot: slot.put(('%d %s' % (cnt, js)).encode())
        k = case.get('k', '')
        kinds[k] = kinds.get(k, 0) + 1
        try:
            r = mod.run(case)
            if r is not False and hash(js) not in seen:
                nontriv += 1
                if len(seen) < 2000000: seen.add(hash(js))
        except Mismatch as e:
            fails.append({'case': case, 'no': cnt, 'what': str(e)})
        except Skip:
            skipped += 1
        except Exception as e:
            fails.append({'case': case, 'no': cnt, 'what': 'exception %s: %s (at %s)' % (type(e).__name__, str(e)[:300], traceback.format_exc().strip().split('\n')[-3].strip()[:200])})
        if len(samples) < 3 and cnt in (1, 50, 700): samples.append(case)
        if len(fails) >= 5: break
    res = {'evaluations': cnt, 'nontrivial': nontriv, 'skipped': skipped, 'samples': samples, 'kinds': kinds, 'fails': fails, 'wall': time.time() - t0}
    if outpath:
        with open(outpath + '.tmp', 'w') as f: json.dump(res, f)
        os.replace(outpath + '.tmp', outpath)
    if slot: slot.put(b'')
    return res
