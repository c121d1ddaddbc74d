"""Builds /repo's workspace under the MIR-dumping compiler driver and loads the
resolved, monomorphised MIR of every workspace function."""
import fcntl, glob, hashlib, json, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SA_REPO', '/repo')
BUILD = os.path.join(VERIF, '.build')
CRATES = ['pw_diff_lib', 'pw_patch.bin', 'pw_diff.bin', 'pw_cub_diff_lib']


class BuildError(Exception):
    pass


def _env():
    e = dict(os.environ)
    for k in ('RUSTC_WRAPPER', 'RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS', 'RUSTC', 'RUSTDOCFLAGS', 'RUSTC_WORKSPACE_WRAPPER',
              'CARGO_BUILD_TARGET', 'CARGO_TARGET_DIR'):
        e.pop(k, None)
    e['CARGO_NET_OFFLINE'] = 'true'
    e['CARGO_TERM_COLOR'] = 'never'
    e['CARGO_INCREMENTAL'] = '0'
    return e


def _run(cmd, cwd, env, what):
    r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError(f'{what} failed ({" ".join(cmd)}):\n{r.stdout[-4000:]}')
    return r.stdout


def sysroot():
    return subprocess.run(['rustc', '+nightly', '--print', 'sysroot'], stdout=subprocess.PIPE, text=True, check=True).stdout.strip()


def driver():
    d = os.path.join(VERIF, 'driver')
    tgt = os.path.join(BUILD, 'driver')
    src = open(os.path.join(d, 'src/main.rs'), 'rb').read()
    h = hashlib.sha256(src).hexdigest()
    stamp = os.path.join(tgt, 'stamp')
    exe = os.path.join(tgt, 'debug', 'mirdump')
    if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == h:
        return exe
    os.makedirs(tgt, exist_ok=True)
    e = _env()
    e['CARGO_TARGET_DIR'] = tgt
    _run(['cargo', '+nightly', 'build', '--offline'], d, e, 'building the MIR driver')
    with open(stamp, 'w') as f:
        f.write(h)
    return exe


def source_files(repo):
    out = []
    for root, ds, fs in os.walk(repo):
        ds[:] = [x for x in ds if x not in ('target', '.git')]
        for f in fs:
            if f.endswith('.rs') or f in ('Cargo.toml', 'Cargo.lock'):
                out.append(os.path.join(root, f))
    return sorted(out)


def src_hash(repo):
    h = hashlib.sha256()
    for p in source_files(repo):
        h.update(p.encode())
        h.update(open(p, 'rb').read())
    h.update(open(os.path.join(VERIF, 'driver/src/main.rs'), 'rb').read())
    return h.hexdigest()


def dump(repo=None):
    """returns the directory holding the JSON dumps of the current tree"""
    repo = repo or REPO
    os.makedirs(BUILD, exist_ok=True)
    tag = hashlib.sha256(os.path.abspath(repo).encode()).hexdigest()[:8]
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        h = src_hash(repo)
        out = os.path.join(BUILD, 'dump-' + tag)
        stamp = os.path.join(out, 'stamp')
        if os.path.exists(stamp) and open(stamp).read() == h and all(os.path.exists(os.path.join(out, c + '.json')) for c in CRATES):
            return out
        exe = driver()
        if os.path.isdir(out):
            shutil.rmtree(out)
        os.makedirs(out)
        tgt = os.path.join(BUILD, 'target')
        for p in glob.glob(os.path.join(tgt, '*', '.fingerprint', 'pw_*')) + glob.glob(os.path.join(tgt, '*', 'build', 'pw_*')):
            shutil.rmtree(p)
        e = _env()
        e['CARGO_TARGET_DIR'] = tgt
        e['MIRDUMP_OUT'] = out
        e['RUSTC_WORKSPACE_WRAPPER'] = exe
        sr = sysroot()
        e['LD_LIBRARY_PATH'] = sr + '/lib' + (':' + e['LD_LIBRARY_PATH'] if e.get('LD_LIBRARY_PATH') else '')
        _run(['cargo', '+nightly', 'check', '--offline', '--workspace', '--lib', '--bins'], repo, e, 'compiling the workspace')
        for c in CRATES:
            if not os.path.exists(os.path.join(out, c + '.json')):
                raise BuildError(f'no MIR dump for {c}: the workspace member is gone')
        with open(stamp, 'w') as f:
            f.write(h)
        return out


class Ty:
    __slots__ = ('id', 'name', 'k', 'r')

    def __init__(self, id, name, k, r):
        self.id, self.name, self.k, self.r = id, name, k, r

    def __repr__(self):
        return self.name


class Fn:
    __slots__ = ('key', 'path', 'name', 'crate', 'file', 'line', 'argc', 'spread', 'r', 'T', 'locals', 'blocks', 'promoted', 'cfg', 'poly')


class Program:
    def __init__(self, d):
        self.types = {}      # name -> Ty
        self.fns = {}
        self.adts = {}
        self.impls = {}
        self.roots = {}
        for c in CRATES:
            with open(os.path.join(d, c + '.json')) as f:
                j = json.load(f)
            T = []
            for t in j['types']:
                g = self.types.get(t['name'])
                if g is None:
                    g = Ty(len(self.types), t['name'], t['k'], None)
                    self.types[t['name']] = g
                T.append(g)
            for t in j['types']:
                g = self.types[t['name']]
                if g.r is None:
                    r = dict(t)
                    for f_ in ('inner',):
                        if f_ in r:
                            r[f_] = T[r[f_]]
                    for f_ in ('elems', 'args'):
                        if f_ in r:
                            r[f_] = [T[x] for x in r[f_]]
                    if 'variants' in r:
                        r['variants'] = [dict(v, fields=[dict(x, ty=T[x['ty']]) for x in v['fields']]) for v in r['variants']]
                    g.r = r
                    if g.k == 'fndef':
                        r['T'] = T
            for k, f in j['fns'].items():
                if k in self.fns:
                    continue
                o = self._fn(f, T)
                self.fns[k] = o
                for p in f.get('promoted', []):
                    q = self._fn(p, T)
                    self.fns[q.key] = q
            self.adts[c] = j['adts']
            self.impls[c] = j['impls']
            self.roots[c] = j['roots']

    def _fn(self, f, T):
        o = Fn()
        o.key, o.path, o.name, o.crate, o.file, o.line = f['key'], f['path'], f['name'], f['crate'], f['file'], f['line']
        o.argc, o.spread, o.r, o.T = f['argc'], f['spread'], f, T
        o.locals = [T[x] for x in f['locals']]
        o.blocks = f['blocks']
        o.cfg = None
        o.poly = f['poly']
        return o

    def ty(self, name):
        return self.types[name]

    def find(self, pred):
        return [f for f in self.fns.values() if pred(f)]


_prog = {}


def load(repo=None):
    repo = repo or REPO
    if repo not in _prog:
        _prog[repo] = Program(dump(repo))
    return _prog[repo]
