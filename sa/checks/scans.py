"""C04 and C07: who-may-call rules over every function body of the workspace.

Every operand of every body (calls and functions passed as values, resolved to
the function actually invoked) is classified; bodies of generic functions are
looked at for every candidate instantiation."""
import re
from .. import mir, interp as IP
from ..models import content


class Use:
    __slots__ = ('fn', 'path', 'rpath', 'crate', 'args', 'call', 'bb', 'opnds', 'key')


def fn_uses(p, fn):
    out = []

    def mk(c, call=None, bb=None, opnds=()):
        u = Use()
        u.fn, u.path, u.crate, u.key = fn, c['path'], c['crate'], c.get('key')
        u.rpath = c.get('rpath') or c['path']
        u.args = [fn.T[a].name for a in c.get('args', [])]
        u.call, u.bb, u.opnds = call, bb, opnds
        out.append(u)

    def walk(x):
        if isinstance(x, dict):
            if isinstance(x.get('fn'), dict):
                mk(x['fn'])
            for v in x.values():
                walk(v)
        elif isinstance(x, list):
            for v in x:
                walk(v)
    for i, b in enumerate(fn.blocks):
        if b is None:
            continue
        walk(b[0])
        t = b[1]
        if t[0] == 'call' and isinstance(t[1], dict) and isinstance(t[1].get('fn'), dict):
            mk(t[1]['fn'], t, i, t[2])
            walk(t[2])
        else:
            walk(t)
    return out


def statics(fn):
    out = []

    def walk(x):
        if isinstance(x, dict):
            if 'static' in x:
                out.append(x)
            for v in x.values():
                walk(v)
        elif isinstance(x, list):
            if x and x[0] == 'tls':
                out.append({'static': str(x[1]), 'smut': True, 'stls': True, 'sty': '?', 'frozen': False})
            for v in x:
                walk(v)
    walk(fn.blocks)
    return out


def strip_generics(s):
    while True:
        t = re.sub(r'::<[^<>]*>', '', s)
        t = re.sub(r'<impl [^<>]*>::', '', t)
        if t == s:
            return t
        s = t


# ----------------------------------------------------------------- C04
FS_READ = {'File::open', 'File::metadata', 'File::try_clone', 'File::sync_all', 'File::sync_data', 'fs::metadata', 'fs::symlink_metadata', 'fs::read', 'fs::read_to_string',
           'fs::read_dir', 'fs::read_link', 'fs::canonicalize', 'fs::exists', 'File::options', 'OpenOptions::new', 'OpenOptions::read',
           'OpenOptions::open', 'File::lock', 'File::lock_shared', 'File::unlock', 'File::try_lock'}
OPEN_FLAGS = {'OpenOptions::write', 'OpenOptions::append', 'OpenOptions::create', 'OpenOptions::create_new', 'OpenOptions::truncate'}


def const_false(op):
    return isinstance(op, dict) and op.get('k') == 'const' and op.get('int') == 0


def fs_effect(u):
    """what a use may do to the world: None, or a description"""
    path = strip_generics(u.rpath)
    segs = [x for x in path.split('::') if x]
    two = '::'.join(segs[-2:])
    c = segs[0].lstrip('<& ')
    if u.crate == 'temp_file' or 'temp_file::' in u.rpath or 'tempfile::' in u.rpath:
        return 'creates or removes temporary files'
    if '::process::' in path or path.startswith('std::process'):
        if any(x in path for x in ('Command', 'Child', 'Stdio')):
            return 'starts or controls a process'
        return None
    if 'std::net' in path or '::os::unix::net' in path:
        return 'uses the network'
    if '::os::' in path and '::fs::' in path:
        last = segs[-1]
        if last in ('symlink', 'symlink_file', 'symlink_dir', 'chown', 'fchown', 'lchown', 'chroot', 'write_at', 'write_all_at', 'mkfifo', 'seek_write', 'custom_flags', 'mode'):
            return 'changes the file system' if last not in ('custom_flags', 'mode') else None
        return None
    if c in ('libc', 'nix', 'rustix'):
        return 'calls the operating system directly'
    if re.search(r'(^|[<& ])std::fs(::|$)', path) or 'std::fs::' in path:
        if re.search(r'std::fs::\w+( as|>)', path):
            return None      # a trait implementation (Read/Write/Debug for File): what is written to is the caller's
        if segs[:2] == ['std', 'fs'] and len(segs) == 3:
            two = 'fs::' + segs[2]
        if two in FS_READ:
            return None
        if two in OPEN_FLAGS:
            if len(u.opnds) > 1 and const_false(u.opnds[1]):
                return None
            return 'opens a file for writing'
        k = segs[2] if len(segs) > 2 else ''
        if k in ('Metadata', 'DirEntry', 'ReadDir', 'FileType', 'Permissions', 'FileTimes'):
            return None
        if two in ('File::create', 'File::create_new', 'File::create_buffered', 'File::set_len', 'File::set_permissions', 'File::set_times', 'File::set_modified') \
                or (segs[:2] == ['std', 'fs'] and len(segs) == 3):
            return 'changes the file system'
        if k == 'DirBuilder' and segs[-1] != 'create':
            return None
        return 'changes the file system'
    return None


def c04(R):
    p = mir.load()
    R.rule('no function of pw_diff_lib, pw_cub_diff_lib or pw_diff calls, or passes on as a value, a function that creates, truncates, '
           'writes, renames or removes a file or directory, changes its metadata, starts a process or uses the network; '
           'files are opened only by File::open or with options that ask for reading only')
    R.rule('the same scan over pw_patch must recognise the calls by which that command changes the file system (positive control)')
    seen = 0
    ctl = set()
    for fn in p.fns.values():
        if not fn.crate.startswith('pw_'):
            continue
        us = fn_uses(p, fn)
        for u in us:
            e = fs_effect(u)
            if fn.crate == 'pw_patch':
                if e:
                    ctl.add(strip_generics(u.rpath))
                continue
            seen += 1
            R.functions.add(fn.path)
            if e:
                R.violate('read-only', f'{fn.path} -> {strip_generics(u.rpath)}', f'{fn.path} ({fn.file}:{fn.line}) calls {u.path}, which {e}')
            else:
                R.ok('read-only')
    R.sites = seen
    R.notes['positive_control'] = sorted(ctl)
    if len(ctl) < 3:
        R.violate('positive-control', 'pw_patch', f'the scan recognises only {sorted(ctl)} in pw_patch: the classification no longer works')
    for c in ('pw_diff_lib', 'pw_cub_diff_lib', 'pw_diff'):
        n = len([f for f in p.fns.values() if f.crate == c])
        R.notes['functions_' + c] = n
        if n < 10:
            R.violate('coverage', c, f'only {n} functions of {c} were seen')
    opened(R, p)
    R.assume += ['functions of other crates outside the standard library (serde_json, regex, rayon, clap, log, stderrlog, lazy_static) do not change the file system',
                 'a writer handed to the library by its caller is the caller\'s business']


def opened(R, p):
    """every path the library opens is (a field of) one of its arguments"""
    R.rule('every path opened or read by a library constructor is one of the paths it was given')
    for fn in p.fns.values():
        if fn.crate not in ('pw_diff_lib', 'pw_cub_diff_lib') or fn.poly or '{closure' in fn.path:
            continue
        us = fn_uses(p, fn)
        if not any(strip_generics(u.rpath).startswith('std::fs::') for u in us):
            continue
        opens(R, p, fn)


def touches(p, pred, memo=None):
    """the keys of all workspace functions from which a use satisfying pred is reachable"""
    direct, succ = set(), {}
    for fn in p.fns.values():
        if fn.crate.startswith('pw_'):
            us = fn_uses(p, fn)
            succ[fn.key] = {u.key for u in us if u.key}
            if any(pred(u) for u in us):
                direct.add(fn.key)
    pred_of = {}
    for k, ss in succ.items():
        for x in ss:
            pred_of.setdefault(x, set()).add(k)
    work, seen = list(direct), set(direct)
    while work:
        x = work.pop()
        for y in pred_of.get(x, ()):
            if y not in seen:
                seen.add(y)
                work.append(y)
    return seen


def opens(R, p, fn):
    I = IP.Interp(p)
    fsy = touches(p, lambda u: strip_generics(u.rpath).startswith('std::fs::'))
    I.noinline = lambda f: f.key not in fsy
    I.on_event = lambda I, st, ev: ev_open(R, fn, I, st, ev)
    st = IP.State()
    args = [IP.mk_sym(('p', f'a{i}'), fn.locals[i + 1]) for i in range(fn.argc)]
    for i, a in enumerate(args):
        pass
    try:
        I.exec_fn(st, fn, args)
    except IP.Stop:
        R.undecided('opened-paths', fn.path)
    R.add_interp(I)


READS = ('open', 'fs_read', 'read_to_string', 'read_dir', 'canonicalize')


def from_param(t):
    if not isinstance(t, tuple):
        return False
    if t and t[0] == 'p':
        return True
    if t and t[0] in ('fld', 'elem', '*', 'as_path', 'conv'):
        return any(from_param(x) for x in t[1:])
    return False


def ev_open(R, fn, I, st, ev):
    if ev[0] in ('ok', 'fail') and ev[1] in READS:
        a = ev[2]
        t = None
        for x in a:
            t = content(I, st, x) if not (isinstance(x, tuple) and x and x[0] == 'p') else x
            break
        if t is not None and from_param(t):
            R.ok('opened-paths')
        elif t is None:
            R.undecided('opened-paths', f'{fn.path}: {a}')
        else:
            R.check('opened-paths', False if isinstance(t, tuple) and t and t[0] in ('lit', 'str', 'cat') else None, f'{fn.path} {ev[1]}', f'{fn.path} opens {t}, which is not one of its arguments')


# ----------------------------------------------------------------- C07
HASHY = re.compile(r'\b(hash_map|hash_set|hash::map|hash::set)::(Iter|IterMut|Keys|Values|ValuesMut|IntoIter|IntoKeys|IntoValues|Drain|ExtractIf|Intersection|Union|Difference|SymmetricDifference)\b|hashbrown::\w+::(Iter|Keys|Values|Drain|IntoIter)')
HASHTY = re.compile(r'^&?(mut )?std::collections::(hash::|hash_)?(map|set)?:*(HashMap|HashSet)<')
NEUTRAL = {'map', 'filter', 'filter_map', 'into_iter', 'by_ref', 'copied', 'cloned', 'flat_map', 'flatten', 'inspect', 'chain', 'size_hint', 'len', 'clone', 'iter', 'keys', 'values',
           'count', 'max', 'min', 'sum', 'product', 'all', 'any', 'drop', 'drop_in_place', 'iter_mut', 'values_mut', 'into_keys', 'into_values', 'drain', 'is_empty'}
ORDERED = re.compile(r'BTreeMap|BTreeSet|HashMap|HashSet|BinaryHeap')

BAD = [
    (re.compile(r'std::time::.*::(now|elapsed)$|SystemTime::now|Instant::now'), 'reads the clock'),
    (re.compile(r'^std::env::'), 'reads the environment'),
    (re.compile(r'std::thread::(current|id|Thread::id|Thread::name|available_parallelism)|ThreadId'), 'depends on the running thread'),
    (re.compile(r'std::thread::.*::(with|set|get|take|replace|with_borrow|with_borrow_mut)$|LocalKey'), 'uses thread-local state'),
    (re.compile(r'std::process::id$'), 'reads the process id'),
    (re.compile(r'RandomState.*(build_hasher|hash_one)|BuildHasher::(build_hasher|hash_one)'), 'hashes with a random seed'),
    (re.compile(r'^(rand|getrandom|fastrand|uuid|chrono|time)::'), 'uses random numbers or the clock'),
    (re.compile(r'std::thread::(spawn|scope|Builder)|std::sync::mpsc|crossbeam'), 'communicates between threads'),
    (re.compile(r'core::sync::atomic::'), 'uses shared mutable state'),
    (re.compile(r'std::sync::.*(Mutex|RwLock|Condvar)|parking_lot::'), 'uses shared mutable state'),
    (re.compile(r'\*(const|mut) T>?::(addr|expose_provenance|expose_addr)$|core::ptr::addr$'), 'uses an address as a number'),
    (re.compile(r'rt::Argument.*::new_pointer$|core::fmt::Pointer'), 'prints an address'),
    (re.compile(r'rayon(_core)?::.*(spawn|scope|find_any|find_map_any|for_each|for_each_with|reduce|reduce_with|try_for_each|current_thread_index|current_num_threads|position_any|fold|fold_with|broadcast|par_bridge)$'),
     'depends on thread scheduling'),
]
RAYON_OK = re.compile(r'(par_sort\w*|par_iter\w*|into_par_iter|map|filter|filter_map|enumerate|zip|collect|collect_into_vec|rev|copied|cloned|with_min_len|with_max_len|par_chunks\w*|par_windows|count|min|max|all|any|join|flat_map_iter|chain|len|drive|unzip|partition|par_lines|par_split\w*)$')


def c07(R):
    p = mir.load()
    R.rule('no function reads the clock, the environment, the process or thread identity, random numbers or an address, '
           'prints an address, or uses shared mutable, thread-local or non-constant static state')
    R.rule('hash maps and sets are never iterated in an order-revealing way (consumers that do not depend on order are allowed), and no serialised type holds one')
    R.rule('the only parallel operations are ones whose result does not depend on scheduling')
    # the classification itself must still recognise what it is there for
    for s_ in ('std::time::Instant::now', 'std::env::var', 'std::thread::current', 'std::process::id', 'core::sync::atomic::AtomicUsize::fetch_add',
               'rand::random', 'rayon::iter::ParallelIterator::find_any', 'std::thread::local::LocalKey::<T>::with'):
        if not any(r.search(strip_generics(s_)) for r, _ in BAD):
            R.violate('positive-control', s_, f'the scan no longer recognises {s_}')
    n = {'calls': 0, 'maps': 0}
    for fn in p.fns.values():
        if not fn.crate.startswith('pw_'):
            continue
        if fn.crate in ('pw_diff', 'pw_patch') and 'clap_builder' in fn.path:
            continue
        R.functions.add(fn.path)
        us = fn_uses(p, fn)
        debug = ' as core::fmt::Debug>::fmt' in fn.path
        sorts = any(re.search(r'::(par_)?sort\w*$|BTree', strip_generics(u.rpath)) for u in us)
        for u in us:
            n['calls'] += 1
            path = strip_generics(u.rpath)
            full = strip_generics(u.path)
            bad = None
            for r, why in BAD:
                if r.search(path) or r.search(full):
                    bad = why
            if bad == 'reads the environment' and re.search(r'std::env::(args|args_os|current_exe)', path) and fn.crate in ('pw_diff', 'pw_patch'):
                bad = None
            if bad:
                R.violate('inputs-only', f'{fn.path} -> {full}', f'{fn.path} ({fn.file}:{fn.line}) calls {u.path}, which {bad}')
                continue
            if path.startswith('rayon') or full.startswith('rayon'):
                if RAYON_OK.search(full):
                    R.ok('parallel')
                else:
                    R.undecided('parallel', f'{fn.path} -> {full}')
            hashy(R, p, fn, u, debug, sorts, n)
            R.ok('inputs-only')
        for s_ in statics(fn):
            if s_.get('smut') or s_.get('stls') or not s_.get('frozen'):
                R.violate('static-state', f'{fn.path} {s_["static"]}', f'{fn.path} ({fn.file}:{fn.line}) uses the static {s_["static"]}: {s_["sty"]}, which can change')
            else:
                R.ok('static-state')
        for b in fn.blocks:
            if b is None:
                continue
            for st in b[0]:
                casts(R, fn, st)
    R.sites = n['calls']
    R.notes['hash_container_calls'] = n['maps']
    if n['calls'] < 500:
        R.violate('coverage', 'calls', f'only {n["calls"]} call sites were seen')
    serialised(R, p)
    R.assume += ['functions of other crates outside the lists are deterministic', 'what is written to the log is not a result']


def casts(R, fn, st):
    if isinstance(st, list):
        if st and st[0] == 'cast' and len(st) > 1 and isinstance(st[1], str):
            if 'Expose' in st[1]:
                R.violate('inputs-only', f'{fn.path} address', f'{fn.path} ({fn.file}:{fn.line}) turns an address into a number')
        for x in st:
            casts(R, fn, x)
    elif isinstance(st, dict):
        for x in st.values():
            casts(R, fn, x)


def hashy(R, p, fn, u, debug, sorts, n):
    full = strip_generics(u.path)
    name = u.path.split('::')[-1]
    a0 = u.args[0] if u.args else ''
    on_map = re.search(r'(HashMap|HashSet)(::|$)', full)
    if on_map:
        n['maps'] += 1
    if debug:
        return
    it = HASHY.search(a0)
    direct = (name in ('into_iter', 'extend', 'from_iter') and HASHTY.search(a0)) or (on_map and name in ('retain', 'extract_if'))
    key = f'{fn.path} -> {full}'
    if name == 'extend' and any(HASHY.search(a) or HASHTY.search(a) for a in u.args[1:]) and not ORDERED.search(a0):
        verdict(R, fn, key, sorts, f'collects a hash container in its iteration order')
        return
    if name == 'retain' and on_map:
        R.undecided('hash-order', key)
        return
    if name == 'eq' or name == 'ne':
        return
    if ('Debug' in u.path or name == 'new_debug') and re.search(r'HashMap|HashSet', a0) and not re.search('log', full):
        R.undecided('hash-order', key)
        return
    if not it:
        if name in ('from_iter', 'from') and any(HASHY.search(a) for a in u.args) and not ORDERED.search(a0):
            verdict(R, fn, key, sorts, 'collects a hash container in its iteration order')
        return
    if name in NEUTRAL or direct:
        R.ok('hash-order')
        return
    if name in ('collect',):
        if any(ORDERED.search(a) for a in u.args[1:] if not HASHY.search(a)):
            R.ok('hash-order')
            return
        verdict(R, fn, key, sorts, 'collects a hash container in its iteration order')
        return
    if name in ('drop_in_place',):
        return
    verdict(R, fn, key, sorts, 'visits a hash container in its iteration order')


def verdict(R, fn, key, sorts, what):
    if sorts:
        R.undecided('hash-order', key + ' (a sort follows)')
    else:
        R.violate('hash-order', key, f'{fn.path} ({fn.file}:{fn.line}) {what}, which differs from run to run')


def serialised(R, p):
    ser = set()
    for c in p.impls:
        for im in p.impls[c]:
            if im['trait'].endswith('::Serialize'):
                ser.add(im['self'].split('<')[0])
    R.notes['serialised_types'] = sorted(ser)
    if len(ser) < 5:
        R.violate('coverage', 'serialised-types', f'only {sorted(ser)} can be serialised')
    for t in p.types.values():
        if t.k == 'adt' and t.name.split('<')[0] in ser and t.r.get('variants'):
            for v in t.r['variants']:
                for f in v['fields']:
                    bad = re.search(r'\b(HashMap|HashSet)<', f['ty'].name)
                    R.check('serialised-types', not bad, f'{t.name}.{f["name"]}', f'field {f["name"]} of the serialised type {t.name} is a {f["ty"].name}, which is written in an order that differs from run to run')
