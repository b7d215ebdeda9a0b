"""Loads the resolved program of /repo: runs the extractor on every translation unit of the library
and merges the results.  Nothing of /repo is executed."""
import concurrent.futures
import hashlib
import json
import os
import pickle
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('BHA_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
LLVM = '/usr/lib/llvm-18'
STD = '-std=c++14'

# Third-party code that lives in the tree; its bodies are not part of the analysed program.
THIRD_PARTY = ('include/blackhole/extensions/format.hpp', 'src/format.cpp')
# Not compiled on Linux (its whole content is under #ifdef __APPLE__).
SKIP_TU = ('src/format.cpp',)


class AnalysisError(Exception):
    """The analysis cannot give an answer (anchor vanished, program does not parse)."""


def build_tool():
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(VERIF, 'tool', 'extract.cpp')
    with open(src, 'rb') as f:
        h = hashlib.sha256(f.read()).hexdigest()[:16]
    out = os.path.join(BUILD, 'bhx-' + h)
    if os.path.exists(out):
        return out
    cpp = subprocess.check_output([LLVM + '/bin/llvm-config', '--cppflags'], text=True).split()
    tmp = out + '.%d.tmp' % os.getpid()
    cmd = [LLVM + '/bin/clang++', '-O1', '-std=c++17', '-fno-rtti'] + cpp + [
        src, '-o', tmp, LLVM + '/lib/libclang-cpp.so.18.1', LLVM + '/lib/libLLVM.so.1',
        '-Wl,-rpath,' + LLVM + '/lib']
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        raise AnalysisError('cannot build the extractor: ' + r.stderr[-2000:])
    os.replace(tmp, out)
    return out


def flags(root):
    return [STD, '-include', 'cstdint', '-I' + root + '/include', '-I' + root, '-I' + root + '/src',
            '-resource-dir', LLVM + '/lib/clang/18', '-w']


def sources(root):
    out = []
    for d, _, fs in os.walk(os.path.join(root, 'src')):
        for f in fs:
            if f.endswith('.cpp'):
                p = os.path.join(d, f)
                if os.path.relpath(p, root) not in SKIP_TU:
                    out.append(p)
    return sorted(out)


def tree_hash(root, extra):
    h = hashlib.sha256()
    for top in ('include', 'src'):
        for d, ds, fs in os.walk(os.path.join(root, top)):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode())
                with open(p, 'rb') as fh:
                    h.update(hashlib.sha256(fh.read()).digest())
    for e in extra:
        h.update(e.encode())
    return h.hexdigest()[:24]


def _cached(tool, root, src, out):
    """Development aid (BHA_TUCACHE): reuse the dump of a unit none of whose files changed."""
    r = subprocess.run([LLVM + '/bin/clang++', '-MM'] + flags(root) + [src], capture_output=True, text=True, check=True)
    h = hashlib.sha256((tool + root + src).encode())
    for p in r.stdout.replace('\\\n', ' ').split()[1:]:
        with open(p, 'rb') as f:
            h.update(p.encode() + f.read())
    return os.path.join(os.environ['BHA_TUCACHE'], h.hexdigest()[:24] + '.json')


def _run(tool, root, src, out):
    if os.environ.get('BHA_TUCACHE'):
        c = _cached(tool, root, src, out)
        if not os.path.exists(c):
            r = _run1(tool, root, src, out)
            if r[1] == 0:
                shutil.copy(out, c)
            return r
        shutil.copy(c, out)
        return src, 0, ''
    return _run1(tool, root, src, out)


def _run1(tool, root, src, out):
    r = subprocess.run([tool, out, src, '--root', root + '/include', '--root', root + '/src',
                        '--root', os.path.join(VERIF, 'witness'), '--'] +
                       flags(root), capture_output=True, text=True)
    return src, r.returncode, r.stderr


class Prog:
    def __init__(self):
        self.functions = {}
        self.records = {}
        self.records_all = {}   # same-named (anonymous namespace) classes of different units
        self.enums = {}
        self.globals = {}
        self.tus = []
        self.root = REPO

    # ------------------------------------------------------------------ queries
    def by_qn(self, qn):
        return [f for f in self.functions.values() if f['qn'] == qn]

    def methods_of(self, cls):
        return [f for f in self.functions.values() if f.get('cls') == cls]

    def rel(self, path):
        return os.path.relpath(path, self.root) if path.startswith('/') else path

    def loc(self, f):
        return self.rel(f['loc'])

    def bases(self, cls, seen=None):
        """All (transitive) base class names of a record."""
        seen = set() if seen is None else seen
        r = self.records.get(cls)
        if r:
            for b in r['bases']:
                if b['t'] not in seen:
                    seen.add(b['t'])
                    self.bases(b['t'], seen)
        return seen

    def derives(self, cls, base):
        return cls == base or cls in self.derived(base)

    def derived(self, base):
        return sorted(k for k in self.records if base in self.bases(k))


def load(root=None):
    root = root or REPO
    tool = build_tool()
    wit = os.path.join(VERIF, 'witness')
    wits = sorted(os.path.join(wit, f) for f in os.listdir(wit) if f.endswith('.cpp')) if os.path.isdir(wit) else []
    wh = []
    for w in wits:
        with open(w) as f:
            wh.append(w + hashlib.sha256(f.read().encode()).hexdigest())
    with open(os.path.abspath(__file__)) as f:
        wh.append(hashlib.sha256(f.read().encode()).hexdigest())
    key = tree_hash(root, [tool] + wh)
    cache = os.path.join(BUILD, 'prog-' + key + '.pickle')
    if os.path.exists(cache):
        try:
            with open(cache, 'rb') as f:
                return pickle.load(f)
        except Exception:
            pass
    work = os.path.join(BUILD, 'x-%s-%d' % (key, os.getpid()))
    os.makedirs(work, exist_ok=True)
    p = Prog()
    p.root = root
    srcs = sources(root) + wits
    outs = [os.path.join(work, '%03d.json' % i) for i in range(len(srcs))]
    try:
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            for src, rc, err in ex.map(lambda a: _run(tool, root, *a), zip(srcs, outs)):
                if rc != 0:
                    raise AnalysisError('cannot parse %s: %s' % (src, err[-1500:]))
        tp = tuple(os.path.join(root, t) for t in THIRD_PARTY)
        for src, out in zip(srcs, outs):
            if not os.path.exists(out):
                raise AnalysisError('no output for ' + src)
            with open(out) as f:
                tu = json.load(f)
            p.tus.append(p.rel(src))
            for k, f in tu['functions'].items():
                if f['file'] in tp:
                    continue
                f['nodes'] = {int(i): n for i, n in f['nodes'].items()}
                if k not in p.functions:
                    p.functions[k] = f
            for k, r in tu['records'].items():
                lst = p.records_all.setdefault(k, [])
                if not any(x['loc'] == r['loc'] for x in lst):
                    lst.append(r)
            for n in ('records', 'enums', 'globals'):
                getattr(p, n).update({k: v for k, v in tu[n].items()
                                      if k not in getattr(p, n)})
    finally:
        for o in outs:
            if os.path.exists(o):
                os.unlink(o)
        try:
            os.rmdir(work)
        except OSError:
            pass
    if len(p.functions) < 300:
        raise AnalysisError('only %d functions were extracted' % len(p.functions))
    tmp = cache + '.%d.tmp' % os.getpid()
    with open(tmp, 'wb') as f:
        pickle.dump(p, f, protocol=pickle.HIGHEST_PROTOCOL)
    os.replace(tmp, cache)
    old = sorted((os.path.join(BUILD, x) for x in os.listdir(BUILD) if x.startswith('prog-') and x.endswith('.pickle')),
                 key=os.path.getmtime)
    for o in old[:-12]:
        try:
            os.unlink(o)
        except OSError:
            pass
    return p


if __name__ == '__main__':
    if sys.argv[1:] == ['setup']:
        print(build_tool())
    else:
        p = load()
        print(len(p.tus), 'units', len(p.functions), 'functions', len(p.records), 'records')
