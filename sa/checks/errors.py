"""C06: error discipline of the two libraries, one function at a time.

Each function that reaches I/O is analysed on its own: what it calls in the
workspace and returns a Result is one step that may fail, everything else is
looked through.  A failure recorded on a path must make that path return an
error."""
import re
import time
from .. import mir, interp as IP, models as MO, lin as LA
from ..models import content, norm
from ..mains import is_result, base_writer, clos_terms, QUIET_FAIL
from .scans import fn_uses, strip_generics, touches

IOERR = re.compile(r'(io::error::Error|io::Error|serde_json::error::Error|serde_json::Error|fmt::Error|FromUtf8Error|Utf8Error|IntoInnerError)')
READS = {'open', 'read_line', 'read_to_end', 'read_to_string', 'read', 'read_some', 'next', 'convert'}
ADAPT = re.compile(r'std::io::(Lines|Split|Bytes)<|io::(buf_read|read)::(Lines|Split|Bytes)<|alloc::io::.*(Lines|Split|Bytes)<')


def err_ty(rt):
    return MO.arg_ty(rt, 1) if rt is not None and is_result(rt) else None


def io_result(rt):
    e = err_ty(rt)
    return e is not None and IOERR.search(e.name) is not None


def reaches_io(u):
    m = norm(u.path)
    if m in MO.FALLIBLE or m in ('Write::write_all', 'Write::write', 'Write::write_fmt', 'BufRead::read_line', 'Read::read_to_end', 'Read::read_to_string', 'BufRead::lines',
                                 'BufRead::read_until', 'BufRead::split', 'Read::bytes', 'Write::write_str', 'Formatter::write_fmt', 'Formatter::write_str'):
        return True
    return strip_generics(u.rpath).startswith(('std::fs::', 'std::io::', 'serde_json::'))


class Err6:
    def __init__(self, R, p):
        self.R, self.p = R, p
        self.io = touches(p, reaches_io)

    def analyse(self, fn):
        R, p = self.R, self.p
        I = IP.Interp(p)
        I.max_steps = 60000
        I.coarse = True
        I.cap = 24
        I.peel = 1
        I.deadline = time.time() + 40
        orig = I.call
        top = fn

        def call(st, c, args, rt):
            g = p.fns.get(c.key)
            if g is not None and g.crate.startswith('pw_'):
                if g.key not in self.io and '{closure' not in g.path and I.models.lookup(I, c) is None:
                    if not any(h in I.hooks for h in (c.key, c.rpath, c.path)):
                        I.calls_seen += 1
                        s = st.copy()
                        MO.havoc_args(I, s, args)
                        return [(s, I.opaque(rt, 'call') if rt is not None else IP.UNIT)]
                if g is not top and is_result(g.locals[0]) and '{closure' not in g.path and g.key in self.io:
                    return self.step(I, st, 'lib', g.path, args, rt)
            elif c.name == 'next' and rt is not None and rt.name.startswith('core::option::Option<core::result::Result<') and IOERR.search(rt.name):
                inner = MO.arg_ty(rt)
                s0 = st.copy()
                MO.havoc_args(I, s0, args)
                out = [(s0, ('agg', rt, 0, ()))]
                for s, v in self.step(I, st, 'next', c.path, args, inner):
                    out.append((s, ('agg', rt, 1, (v,))))
                return out
            elif g is None and c.key not in p.fns and io_result(rt) and I.models.lookup(I, c) is None and not (c.trait or '').startswith('core::ops'):
                return self.step(I, st, 'read' if 'Read' in c.path else 'call', c.path, args, rt)
            return orig(st, c, args, rt)
        I.call = call
        I.on_event = self.event
        st = IP.State()
        args = []
        for i in range(fn.argc):
            ty = fn.locals[i + 1]
            if ty.k == 'ref' and ty.r.get('mut'):
                loc = ('G', f'arg{i}')
                st.mem[loc] = IP.mk_sym(('p', f'a{i}'), ty.r['inner'])
                args.append(('ref', loc, ()))
            else:
                args.append(IP.mk_sym(('p', f'a{i}'), ty))
        try:
            rets = I.exec_fn(st, fn, args)
        except IP.Stop:
            R.undecided('errors', f'{fn.path}: analysis budget')
            return
        R.add_interp(I)
        R.paths += len(rets)
        for s, v in rets:
            self.judge(I, fn, s, v)

    def step(self, I, st, op, name, args, rt):
        I.calls_seen += 1
        s = st.copy()
        MO.havoc_args(I, s, args)
        cs = tuple(content(I, st, a) or ('val',) + tuple(clos_terms(I, st, a)) for a in args)
        return MO.fallible(I, s, op, [('sym', x) for x in cs], rt, extra=(name, cs))

    def event(self, I, st, ev):
        g = st.ghost
        k = ev[0]
        if k == 'fail':
            op = ev[1]
            g.pop('since', None)
            if op not in QUIET_FAIL:
                name = ev[3] if op in ('lib', 'next', 'read', 'call') and len(ev) > 3 and isinstance(ev[3], str) else op
                old = g.get('failed', ())
                if (op, name) not in old:
                    g['failed'] = old + ((op, name),)
        if k == 'ok' and (ev[1] in READS or ev[1] == 'lib'):
            g['since'] = True
        if k == 'ok' and ev[1] == 'flush':
            for t in self.bufs(I, st, ev[2]):
                g[('B', t)] = 'clean'
        elif k == 'write' or (k == 'ok' and ev[1] in ('to_writer', 'lib', 'call')):
            for t in self.bufs(I, st, [ev[3]] if k == 'write' else ev[2]):
                g[('B', t)] = 'dirty'
        elif k == 'partial':
            g['partial'] = True
        elif k == 'drop':
            v = I.strip(st, ev[1])
            for t in clos_terms(I, st, v):
                b, f = base_writer(t)
                if b is not None and b[0] == 'bufio' and g.get(('B', b)) == 'dirty':
                    g['lost'] = True

    def bufs(self, I, st, vs):
        for v in vs:
            t = v[1] if v[0] == 'sym' else content(I, st, v)
            if isinstance(t, tuple):
                b, f = base_writer(t)
                if b is not None and b[0] == 'bufio':
                    yield b

    def judge(self, I, fn, s, v):
        R = self.R
        g = s.ghost
        v = I.strip(s, v)
        rty = fn.locals[0]
        failed = g.get('failed', ())
        if is_result(rty):
            if v[0] == 'agg' and v[2] == 1:
                R.ok('errors')
                return
            okp = v[3][0] if v[0] == 'agg' and v[2] == 0 else None
            if okp is None and failed:
                # a result passed on unchanged, or built elsewhere
                d = LA.var(LA.atom(('discr', v[1]), 0, 1)) if v[0] == 'sym' else None
                if d is not None and s.ent_eq(LA.addc(d, -1)):
                    R.ok('errors')
                else:
                    R.undecided('errors', f'{fn.path}: returns a result of unknown kind after a failure of {failed}')
                return
            if failed and okp is not None:
                n = self.variant(I, s, okp)
                if n and n.startswith('Byte') and g.get('since') and all(op in READS or (op == 'lib' and self.reader(nm)) for op, nm in failed):
                    R.ok('text-to-bytes fallback')
                    return
                R.violate('errors', f'{fn.path} after {failed[0][1]}', f'{fn.path} ({fn.file}:{fn.line}) returns success on a path on which {failed[0][1]} failed')
                return
        elif failed:
            if fn.key in self.inlined:
                R.ok('errors')
                return
            R.violate('errors', f'{fn.path} after {failed[0][1]}', f'{fn.path} ({fn.file}:{fn.line}) drops the error of {failed[0][1]}')
            return
        if g.get('partial'):
            if s.wid:
                R.undecided('whole-writes', f'{fn.path}: a loop of partial writes')
            else:
                R.violate('whole-writes', fn.path, f'{fn.path} ({fn.file}:{fn.line}) uses a write that may be partial and returns success without checking how much was written')
            return
        if g.get('lost') or any(k[0] == 'B' and x == 'dirty' for k, x in g.items() if isinstance(k, tuple)) and self.local_buf(g, s):
            R.violate('flush', fn.path, f'{fn.path} ({fn.file}:{fn.line}) leaves buffered output to a destructor, which drops the error')
            return
        R.ok('errors')

    def local_buf(self, g, s):
        return False

    def reader(self, name):
        for f in self.p.fns.values():
            if f.path == name and not f.poly:
                us = [norm(u.path) for k in [f] for u in fn_uses(self.p, k)]
                return not any('Write::' in x or 'to_writer' in x for x in us)
        return False

    def variant(self, I, s, v):
        v = I.strip(s, v)
        if v[0] == 'agg' and v[1] is not None and v[1].k == 'adt' and len(v[1].r.get('variants', ())) > 1:
            return v[1].r['variants'][v[2]]['name']
        return None


def pick(p, io):
    """one instantiation or two of every function that reaches I/O"""
    by = {}
    for f in p.fns.values():
        if f.crate in ('pw_diff_lib', 'pw_cub_diff_lib') and not f.poly and f.key in io and '_::<impl' not in f.path \
                and '::promoted[' not in f.key and '{closure' not in f.path and not re.search(r' as core::(fmt::Debug|clone|cmp)', f.path) and '__' not in f.path and 'lazy_static' not in f.path:
            by.setdefault(f.path, []).append(f)
    out = []
    for path, fs in sorted(by.items()):
        fs.sort(key=lambda f: (0 if 'std::fs::File' in f.key else 1, len(f.key)))
        out += fs[:2]
    return out


def c06(R):
    p = mir.load()
    R.rule('on every path of a library function on which a read, write, open, (de)serialisation or other library step fails, the function returns an error '
           '(only a text reading failure followed by a diff of a byte kind is excused)')
    R.rule('writes are whole (write_all, write_fmt or a summary of one), a partial write is not used without checking its count, and a buffered writer is flushed before it is dropped')
    R.rule('errors of line and byte iterators are not filtered out')
    E = Err6(R, p)
    E.inlined = set()
    fns = pick(p, E.io)
    for f in p.fns.values():
        if f.crate in ('pw_diff_lib', 'pw_cub_diff_lib'):
            for u in fn_uses(p, f):
                if u.key and u.key != f.key and u.key in E.io and u.key in p.fns and not is_result(p.fns[u.key].locals[0]):
                    E.inlined.add(u.key)
    for f in fns:
        E.analyse(f)
    R.notes['functions_reaching_io'] = sorted(set(f.path for f in fns))
    if len(set(f.path for f in fns)) < 20:
        R.violate('coverage', 'functions', f'only {len(fns)} functions that reach I/O were found')
    for f in p.fns.values():
        if not f.crate.startswith('pw_diff_lib') and not f.crate.startswith('pw_cub'):
            continue
        for u in fn_uses(p, f):
            a0 = u.args[0] if u.args else ''
            name = u.path.split('::')[-1]
            if ADAPT.search(a0) and name in ('flatten', 'filter_map', 'map_while', 'flat_map', 'take_while', 'filter', 'scan'):
                drop = name == 'flatten' or any(re.search(r'Result<.*>::ok|Result::<.*>::ok', x) for x in u.args[1:])
                if drop:
                    R.violate('iterators', f'{f.path} {name}', f'{f.path} ({f.file}:{f.line}) skips the errors of {a0}')
                else:
                    R.undecided('iterators', f'{f.path} {name}')
    R.assume += ['a closure that is only stored is called with the results it was written for', 'panics are not successes']
