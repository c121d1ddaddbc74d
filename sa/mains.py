"""Typestate analysis of the two commands.

The entry point of a command is analysed with every file system, I/O and
library operation forking into success and failure.  A monitor (finite state,
kept in the abstract state) records for every path what happened to it, which
temporary files are alive, whether anything failed or lost an error, and what
was written where.  The properties are judged at every way the process can end.
"""
from . import interp as IP, models as MO, lin as LA
from .interp import UNIT
from .models import content, norm

MUTATING = {'create', 'create_new', 'open_write', 'rename', 'remove_file', 'fs_write', 'copy', 'remove_dir', 'remove_dir_all', 'create_dir',
            'create_dir_all', 'set_permissions', 'hard_link', 'set_len', 'temp_write', 'io_copy'}
WRITABLE = ('create', 'create_new', 'open_write', 'temp_create', 'temp_write')
QUIET_FAIL = {'metadata', 'temp_cleanup', 'canonicalize'}


def is_result(ty):
    return ty.k == 'adt' and ty.r['path'] == 'core::result::Result'


def has_loop(p, fn, seen=None, memo={}):
    """does the workspace part of fn's call graph contain a loop or file access?"""
    k = (id(p), fn.key)
    if k in memo:
        return memo[k]
    seen = seen or set()
    if fn.key in seen:
        return True
    seen = seen | {fn.key}
    r = False
    succ = {}
    for i, b in enumerate(fn.blocks):
        if b is None:
            continue
        t = b[1]
        if t[0] == 'call' and 'fn' in t[1]:
            g = p.fns.get(t[1]['fn'].get('key'))
            if g is not None and g.crate.startswith('pw_') and has_loop(p, g, seen):
                r = True
    # a back edge in depth first order
    from .interp import CFG
    if fn.cfg is None:
        fn.cfg = CFG(fn)
    if any(not isinstance(c, int) for c in fn.cfg.wto):
        r = True
    memo[k] = r
    return r


def clos_terms(I, st, v, depth=0):
    """all file / writer / object terms a value refers to"""
    if depth > 3:
        return
    v = I.strip(st, v)
    if v[0] == 'sym':
        yield v[1]
    elif v[0] == 'str':
        yield v[1]
    elif v[0] == 'seq':
        if v[3] is not None:
            yield v[3]
        for n in (5, 6):
            for x in v[n]:
                yield ('changed',)
    elif v[0] == 'view':
        yield from clos_terms(I, st, v[1], depth + 1)
    elif v[0] == 'agg':
        for x in v[3]:
            yield from clos_terms(I, st, x, depth + 1)


def base_writer(t):
    """(outermost buffer term or None, underlying file/stdout term)"""
    buf = None
    while isinstance(t, tuple) and t and t[0] == 'bufio':
        if buf is None and 'Reader' not in t[1]:
            buf = t
        t = t[2]
    if isinstance(t, tuple) and t in (('stdout',), ('lock',)):
        return t, t
    return buf, t


def mentions(t, sub):
    if t == sub:
        return True
    return isinstance(t, tuple) and any(mentions(x, sub) for x in t)


def pathkey(v):
    return v[1] if isinstance(v, tuple) and v and v[0] == 'sym' else v


class Mains:
    def __init__(self, prog, crate):
        self.p = prog
        self.crate = crate
        self.entry = prog.fns.get(crate + '::main')
        self.I = I = IP.Interp(prog)
        self.wrote = {}
        self.applied = {}
        orig = I.call

        def call(st, c, args, rt):
            fn = prog.fns.get(c.key)
            if fn is not None and fn.crate in ('pw_diff_lib', 'pw_cub_diff_lib') and is_result(fn.locals[0]) and has_loop(prog, fn):
                return self.lib_op(I, st, fn, c, args, rt)
            return orig(st, c, args, rt)
        I.call = call
        I.on_event = self.event
        I.hooks = {}

    def lib_op(self, I, st, fn, c, args, rt):
        cs = tuple(content(I, st, a) or ('val',) + tuple(clos_terms(I, st, a)) for a in args)
        term = ('ret', fn.path, cs)
        a = MO.arg_ty(rt)
        okv = UNIT if a.k == 'tuple' and not a.r['elems'] else IP.mk_sym(term, a)
        out = []
        for s, v in MO.fallible(I, st, 'lib', args, rt, okv, extra=(fn, term, cs)):
            # an in-memory writer now holds what the operation wrote
            for x in args:
                if x[0] == 'ref':
                    w = I.read(s, x[1], x[2])
                    if w[0] == 'seq' and w[3] is None and not w[5] and not w[6]:
                        n = LA.var(LA.atom(('len', ('wrote', term)), 0, LA.MAX))
                        I.write(s, x[1], x[2], ('seq', w[1], w[2], ('wrote', fn, term, cs), n, (), ()))
            if a is not None and a.name.endswith('Statistics') and not v[0] == 'x':
                pass
            out.append((s, v))
        return out

    # ------------------------------------------------------------------ monitor
    def event(self, I, st, ev):
        g = st.ghost
        k = ev[0]
        if k in ('ok', 'fail'):
            op, args = ev[1], ev[2]
            ok = k == 'ok'
            if not ok and op not in QUIET_FAIL:
                tp = pathkey(args[0]) if args and isinstance(args, tuple) else None
                if not (op == 'remove_file' and isinstance(tp, tuple) and tp and tp[0] == 'temppath'):
                    g.setdefault('failed', ev[3].name if op == 'lib' else op)
            if op == 'lib':
                self.lib_event(I, st, ok, *ev[3:6])
            elif op == 'from_reader':
                if ok:
                    g[('D', ('parsed', content(I, st, args[0])))] = True
            elif op == 'to_writer':
                self.wr_event(I, st, content(I, st, args[0]), ok, ('json', content(I, st, args[1])))
            elif op == 'flush':
                t = content(I, st, args[0])
                b, f = base_writer(t)
                if b is not None:
                    g[('B', b)] = 'clean' if ok else 'lost'
            elif op == 'temp_create' or op == 'temp_write':
                if ok:
                    t = ('file', op, tuple(content(I, st, a) for a in args), I.sitekey())
                    g[('T', t)] = 'live'
                    g[('F', ('temppath', t))] = 'temp'
                    g[('W', ('temppath', t))] = ()
            elif op in MUTATING:
                self.mut_event(I, st, ok, op, [pathkey(a) for a in args])
        elif k == 'write':
            w = content(I, st, ev[3])
            self.wr_event(I, st, w, True, self.what(I, st, ev[1]))
        elif k == 'partial':
            g['swallow'] = 'a write that may be partial'
        elif k == 'drop':
            t = None
            v = I.strip(st, ev[1])
            for t in clos_terms(I, st, v):
                if t[0] == 'file' and t[1] in ('temp_create', 'temp_write'):
                    if g.get(('T', t)) != 'leaked':
                        g[('T', t)] = 'gone'
                        if ('F', ('temppath', t)) in g:
                            g[('F', ('temppath', t))] = 'removed'
                b, f = base_writer(t)
                if b is not None and b[0] == 'bufio' and g.get(('B', b)) == 'dirty':
                    g['swallow'] = 'buffered data written by a destructor, which drops the error'
                    g[('B', b)] = 'lost'
        elif k == 'forget':
            for t in clos_terms(I, st, ev[1]):
                if t[0] == 'file' and t[1] in ('temp_create', 'temp_write'):
                    g[('T', t)] = 'leaked'

    def what(self, I, st, v):
        v = I.strip(st, v)
        if v[0] == 'view' and v[1][0] in ('seq',) and LA.is_const(v[2]) and v[2][0] == 0:
            v = v[1]
        if v[0] == 'seq' and v[3] is not None and v[3][0] == 'wrote' and not v[5]:
            _, fn, term, cs = v[3]
            return ('lib', fn.path, cs)
        return ('direct', content(I, st, v))

    def lib_event(self, I, st, ok, fn, term, cs):
        for t in cs:
            if not isinstance(t, tuple) or not t:
                continue
            b, f = base_writer(t)
            if f in (('stdout',), ('lock',)) or (isinstance(f, tuple) and f[0] == 'file' and f[1] in WRITABLE):
                self.wr_event(I, st, t, ok, ('lib', fn.path, cs))
        rty = MO.arg_ty(fn.locals[0])
        if ok and rty is not None and rty.name.endswith('::Statistics'):
            st.ghost[('S', term)] = True
        if ok:
            st.ghost[('op', 'lib', fn.path, cs)] = True

    def wr_event(self, I, st, w, ok, what):
        g = st.ghost
        b, f = base_writer(w) if w is not None else (None, None)
        if b is not None:
            g[('B', b)] = 'dirty' if ok else 'lost'
        if isinstance(f, tuple) and f and f[0] == 'file':
            p = f[2][0] if f[1] != 'temp_create' else ('temppath', f)
            old = g.get(('W', p), ())
            if len(old) < 4:
                g[('W', p)] = old + ((what, ok),)

    def mut_event(self, I, st, ok, op, paths):
        g = st.ghost
        if ok:
            key = ('op', op) + tuple(paths)
            g[key] = g.get(key, 0) + 1 if g.get(key, 0) < 3 else 3
            if op in ('create', 'create_new', 'open_write', 'fs_write', 'copy'):
                p = paths[0]
                g[('F', p)] = op
                g[('W', p)] = ()
            elif op == 'rename':
                src, dst = paths[0], paths[1]
                g[('R', src, dst)] = (g.get(('F', src), 'none'), g.get(('W', src), ()), self.dirty(g, src))
                g[('F', src)] = 'removed'
                if isinstance(src, tuple) and src and src[0] == 'temppath':
                    g[('T', src[1])] = 'gone'
            elif op == 'remove_file':
                g[('F', paths[0])] = 'removed'
                if isinstance(paths[0], tuple) and paths[0] and paths[0][0] == 'temppath':
                    g[('T', paths[0][1])] = 'gone'
        else:
            g[('tried', op) + tuple(paths)] = True

    def dirty(self, g, path):
        for k, v in g.items():
            if k[0] == 'B' and v != 'clean':
                b, f = base_writer(k[1])
                if isinstance(f, tuple) and f and f[0] == 'file' and (f[2][0] == path or ('temppath', f) == path):
                    return True
        return False

    # ------------------------------------------------------------------ ends of the process
    def run(self):
        """list of (state, status) with status 0, 'nonzero', 'panic' or None"""
        I = self.I
        self.ends = []
        rets = I.exec_fn(IP.State(), self.entry, [])
        for s, v in rets:
            self.ends.append((s, self.main_status(s, v), 'return from main'))
        for s, k, info in I.terminals:
            if k == 'exit':
                if LA.is_const(info):
                    self.ends.append((s, 0 if info[0] % 256 == 0 else 'nonzero', 'process::exit'))
                elif s.ent_ne(info):
                    self.ends.append((s, 'nonzero', 'process::exit'))
                else:
                    self.ends.append((s, None, 'process::exit'))
            elif k == 'panic':
                self.ends.append((s, 'panic', 'panic'))
            else:
                self.ends.append((s, None, k))
        return self.ends

    def main_status(self, s, v):
        v = self.I.strip(s, v)
        if v == UNIT or (v[0] == 'agg' and v[1] is not None and v[1].k == 'tuple'):
            return 0
        if v[0] == 'agg' and v[1] is not None and is_result(v[1]):
            return self.main_status(s, v[3][0]) if v[2] == 0 else 'nonzero'
        if v[0] == 'sym' and v[1][0] == 'const' and 'ExitCode' in str(v[2]):
            return 0 if 'SUCCESS' in str(v[1][1]) else 'nonzero' if 'FAILURE' in str(v[1][1]) else None
        if v[0] == 'sym' and v[1][0] == 'exitcode':
            c = v[1][1]
            if LA.is_const(c):
                return 0 if c[0] % 256 == 0 else 'nonzero'
            return 'nonzero' if s.ent_ne(c) else None
        return None


    # ------------------------------------------------------------------ shared views
    def variant(self, st, ty):
        """(payload term, variant name) of the parsed diff on this path"""
        for t, b in self.diff_terms(st):
            for i, v in enumerate(ty.r['variants']):
                l = LA.var(LA.atom(('discr', t), 0, len(ty.r['variants']) - 1))
                if st.ent_eq(LA.addc(l, -i)):
                    return t, v['name'], i
            return t, None, None
        return None, None, None

    def diff_terms(self, st):
        ts = []
        for k in st.ghost:
            if k[0] == 'D':
                ts.append((k[1], True))
        return ts


def show(t, depth=0):
    """readable form of a term"""
    if isinstance(t, str):
        return t
    if not isinstance(t, tuple) or not t:
        return str(t)
    k = t[0]
    if k == 'temppath':
        return 'path of the temporary file'
    if k == 'file':
        return f'file({t[1]} {", ".join(show(x) for x in t[2])})'
    if k == 'fld':
        return show(t[1]) + '.' + str(t[3] if len(t) > 3 else '')
    if k == 'p':
        return t[1]
    if k in ('ret',):
        return t[1].split('::')[-1] + '(..)'
    if k == 'lit':
        return repr(t[1])
    if k == '*':
        return show(t[1])
    if k == 'u':
        return f'<{t[1]}>'
    return k
