"""Loads the extractor's output: functions, records and types of /repo/src."""
import json, os, subprocess, hashlib, sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, '.build'))
CLANG_ARGS = ['-std=c++14', '-w', '-Wno-c++11-narrowing', '-resource-dir',
              '/usr/lib/llvm-18/lib/clang/18']


class ExtractError(Exception):
    pass


def ensure_extractor():
    exe = os.path.join(BUILD, 'extract')
    src = os.path.join(VERIF, 'tool', 'extract.cpp')
    if not os.path.exists(exe) or os.path.getmtime(exe) < os.path.getmtime(src):
        r = subprocess.run(['bash', os.path.join(VERIF, 'tool', 'build.sh'), exe],
                           capture_output=True, text=True)
        if r.returncode:
            raise ExtractError('extractor does not build: ' + r.stderr[-2000:])
    return exe


class Program:
    def __init__(self, data):
        self.funcs = data['funcs']
        self.recs = data['recs']
        self.types = data['types']
        self.by_rec_type = {}
        for tid, t in self.types.items():
            if t['c'] == 'rec':
                self.by_rec_type[t['rec']] = tid
        self._bases = {}

    def T(self, tid):
        return self.types[tid]

    def bases(self, cls):
        r = self.recs.get(cls)
        return r.get('bases', []) if r else []

    def mro(self, cls):
        out = [cls]
        for b in self.bases(cls):
            for x in self.mro(b):
                if x not in out:
                    out.append(x)
        return out

    def fields(self, cls):
        """[(owner class, field record)] base-first."""
        out = []
        for b in self.bases(cls):
            out += self.fields(b)
        r = self.recs.get(cls)
        if r:
            out += [(cls, f) for f in r['fields']]
        return out

    def method_overrides(self, cls, key):
        r = self.recs.get(cls)
        if not r:
            return None
        for m in r['methods']:
            if m['key'] == key:
                return m
            if self._ov(m, key):
                return m
        return None

    def _ov(self, m, key):
        for o in m['overrides']:
            if o == key:
                return True
            # transitively
            oc = self.find_method(o)
            if oc and self._ov(oc, key):
                return True
        return False

    def find_method(self, key):
        if not hasattr(self, '_mi'):
            self._mi = {}
            for r in self.recs.values():
                for m in r.get('methods', []):
                    self._mi[m['key']] = m
        return self._mi.get(key)

    def resolve_virtual(self, dyn, key):
        for c in self.mro(dyn):
            m = self.method_overrides(c, key)
            if m:
                return m['key']
        return key


def extract(root=None, driver=None):
    root = root or os.path.join(REPO, 'src')
    driver = driver or os.path.join(VERIF, 'tool', 'driver.cpp')
    exe = ensure_extractor()
    cmd = [exe, root, driver] + CLANG_ARGS + ['-I' + root]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode or not r.stdout.strip():
        raise ExtractError('extraction failed: ' + r.stderr[-3000:])
    return Program(json.loads(r.stdout)), hashlib.sha256(r.stdout.encode()).hexdigest()
