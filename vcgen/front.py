"""Front end: dump the function bodies of /repo's translation units with the
clang plugin in ../tools and index them."""
import json, os, subprocess, sys, hashlib, tempfile, shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SO = os.path.join(VERIF, 'build', 'astdump.so')


class FrontError(Exception):
    pass


def build_plugin():
    src = os.path.join(VERIF, 'tools', 'astdump.cc')
    if os.path.exists(SO) and os.path.getmtime(SO) >= os.path.getmtime(src):
        return SO
    os.makedirs(os.path.dirname(SO), exist_ok=True)
    tmp = SO + '.%d' % os.getpid()
    r = subprocess.run(['clang++', '-O0', '-fPIC', '-shared', '-fno-rtti', '-std=c++17',
                        '-I/usr/lib/llvm-18/include', src, '-o', tmp],
                       capture_output=True, text=True)
    if r.returncode:
        raise FrontError('plugin does not build: ' + r.stderr[-2000:])
    os.replace(tmp, SO)
    return SO


FLAGS = ['-std=gnu++17', '-DNDEBUG', '-DB_64', '-w']


def dump(tu, outdir):
    so = build_plugin()
    src = os.path.join(REPO, 'src', tu)
    out = os.path.join(outdir, tu.replace('/', '_') + '.json')
    cmd = ['clang++', '-fsyntax-only', *FLAGS, '-I%s/src' % REPO, '-I%s/src/SAPPOROBDD' % REPO,
           '-fplugin=' + so]
    for a in (['-plugin', 'vcdump'], ['-plugin-arg-vcdump', 'root=%s/src' % REPO],
              ['-plugin-arg-vcdump', 'out=' + out]):
        for x in a:
            cmd += ['-Xclang', x]
    r = subprocess.run(cmd + [src], capture_output=True, text=True)
    if r.returncode or not os.path.exists(out):
        raise FrontError('cannot parse %s: %s' % (tu, r.stderr[-1500:]))
    return json.load(open(out))


class Index:
    def __init__(self, tus):
        self.fns, self.records, self.globals = {}, {}, {}
        self.byname = {}
        d = tempfile.mkdtemp(prefix='vcdump')
        try:
            build_plugin()
            from concurrent.futures import ThreadPoolExecutor
            with ThreadPoolExecutor(8) as ex: js = list(ex.map(lambda tu: dump(tu, d), tus))
            for tu, j in zip(tus, js):
                for f in j['functions']:
                    f['tu'] = tu
                    self.fns.setdefault(f['key'], f)
                for r in j['records']:
                    self.records.setdefault(r['t'], r)
                for g in j['globals']:
                    self.globals.setdefault(g['q'], g)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        for f in self.fns.values():
            self.byname.setdefault(f['name'], []).append(f)
