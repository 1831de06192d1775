"""Front end: type-checks /repo's C++ with clang (libTooling) and loads the
resolved syntax trees."""
import os, sys, json, glob, subprocess, hashlib, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('BX_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
EXPORTER = os.path.join(BUILD, 'bxexport')
EXPSRC = os.path.join(VERIF, 'tools', 'exporter', 'bxexport.cpp')


class AnalysisBroken(Exception):
    pass


def build_exporter():
    os.makedirs(BUILD, exist_ok=True)
    h = hashlib.sha256(open(EXPSRC, 'rb').read()).hexdigest()
    stamp = EXPORTER + '.stamp'
    if os.path.exists(EXPORTER) and os.path.exists(stamp) and open(stamp).read() == h:
        return
    tmp = EXPORTER + '.tmp%d' % os.getpid()
    cmd = ['/usr/bin/g++', '-O1', '-std=c++17', '-fno-rtti', '-I/usr/lib/llvm-18/include',
           EXPSRC, '-o', tmp, '-L/usr/lib/llvm-18/lib',
           '-l:libclang-cpp.so.18.1', '-l:libLLVM-18.so']
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        raise AnalysisBroken('cannot build exporter: ' + r.stderr[-2000:])
    os.replace(tmp, EXPORTER)
    with open(stamp, 'w') as f:
        f.write(h)


def pybind_flags():
    out = []
    for pat in ('/opt/boozenv/lib/python3*/site-packages/pybind11/include',
                '/usr/lib/python3*/dist-packages/pybind11/include',
                '/opt/veriftools/pyvenv/lib/python3*/site-packages/pybind11/include'):
        g = sorted(glob.glob(pat))
        if g:
            out.append('-I' + g[0])
            break
    g = sorted(glob.glob('/usr/include/python3.*/Python.h'))
    if g:
        out.append('-I' + os.path.dirname(g[-1]))
    return out


def flags_for(path, openmp=True):
    base = ['-DNDEBUG'] + (['-fopenmp', '-DOPENMP'] if openmp else []) + ['-w',
            '-I' + os.path.join(VERIF, 'tools', 'inc'),
            '-I' + os.path.join(REPO, 'src/_booz_xform'),
            '-I' + os.path.join(REPO, 'externalPackages/doctest'),
            '-I' + os.path.join(REPO, 'externalPackages/eigen'),
            '-resource-dir', '/usr/lib/llvm-18/lib/clang/18']
    if os.path.basename(path) == 'bindings.cpp':
        return ['-std=gnu++17', '-D_booz_xform_EXPORTS'] + base + pybind_flags()
    return ['-std=gnu++11'] + base


def _export(path, openmp=True):
    cmd = [EXPORTER, os.path.join(REPO, 'src'), path, '--'] + flags_for(path, openmp)
    r = subprocess.run(cmd, capture_output=True, text=True, cwd='/tmp')
    return path, r.returncode, r.stdout, r.stderr


def _prefix(node, pre):
    """make TU-local variable ids unique across translation units"""
    st = [node]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            for key in ('id', 'd'):
                v = x.get(key)
                if isinstance(v, str) and len(v) > 1 and v[0] == 'v' and v[1:].isdigit():
                    x[key] = pre + v
            st.extend(y for y in x.values() if isinstance(y, (dict, list)))
        elif isinstance(x, list):
            st.extend(y for y in x if isinstance(y, (dict, list)))


class Program:
    def __init__(self):
        self.fns = {}      # usr -> fn
        self.by_name = {}  # qualified name -> [fn]
        self.recs = {}
        self.vars = {}
        self.units = []
        self.errors = []

    def fn(self, qn, nparams=None):
        c = self.by_name.get(qn, [])
        if nparams is not None:
            c = [f for f in c if len(f['params']) == nparams]
        return c[0] if c else None


def load(bindings=False, only=None, openmp=True):
    build_exporter()
    d = os.path.join(REPO, 'src/_booz_xform')
    files = sorted(glob.glob(d + '/**/*.cpp', recursive=True) + glob.glob(d + '/**/*.cc', recursive=True))
    files = [f for f in files if '/tests/' not in f]
    if not bindings:
        files = [f for f in files if os.path.basename(f) != 'bindings.cpp']
    else:
        if only == 'bindings':
            files = [f for f in files if os.path.basename(f) == 'bindings.cpp']
    if not files:
        raise AnalysisBroken('no C++ sources under ' + d)
    P = Program()
    with cf.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda f: _export(f, openmp), files))
    for n, (path, rc, out, err) in enumerate(res):
        if not out.strip():
            raise AnalysisBroken('front end failed on %s: %s' % (path, err[-1500:]))
        if 'error:' in err:
            raise AnalysisBroken('front end errors on %s: %s' % (path, err[-1500:]))
        J = json.loads(out)
        _prefix(J, 't%d.' % n)
        P.units.append(path)
        for f in J['fns']:
            if f['u'] not in P.fns:
                P.fns[f['u']] = f
                P.by_name.setdefault(f['qn'], []).append(f)
        for r in J['recs']:
            P.recs.setdefault(r['qn'], r)
        for v in J['vars']:
            P.vars.setdefault(v['id'], v)
    return P


if __name__ == '__main__':
    P = load()
    print(len(P.fns), 'functions', len(P.recs), 'records', len(P.vars), 'globals')
    for f in P.fns.values():
        print(f['qn'], f['file'], f['l'])
