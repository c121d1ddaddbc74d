"""C22: reading keeps every byte, writing writes exactly the requested items."""
from .. import mir, interp as IP, lin as LA, models as MO
from ..lin import var, const, add, sub, addc, neg, atom, ZERO
from . import base
from .engine import tyname, opt_payload
from .output import Out, flatten
from .script import same_items

N = ('G', 'pushed')


def unwrap(t):
    """the source behind buffering wrappers"""
    while isinstance(t, tuple) and t and t[0] == 'bufio':
        t = t[2]
    return t


def holds(t, x):
    if t == x:
        return True
    return isinstance(t, tuple) and any(holds(y, x) for y in t)


def whole(t):
    """a borrowed item is the item"""
    while isinstance(t, tuple) and t and t[0] == '*':
        t = t[1]
    return t


class Lines:
    """follows every line from the reader (or the text) to the vector of lines"""

    def __init__(self, R, I, key, is_src):
        self.R, self.I, self.key, self.is_src = R, I, key, is_src
        self.name = 'every line is kept as it was read'

    def init(self, st):
        st.mem[N] = ('int', ZERO)
        st.ghost['pending'] = None
        st.ghost['eof'] = False
        st.ghost['mode'] = None

    def bad(self, st, why, precise=True, strict=False):
        if strict or precise and st.wid == 0:
            self.R.violate(self.name, f'{self.key} {why}', f'reading content: {why}')
        else:
            self.R.undecided(self.name, f'{self.key}: {why}')

    def lost(self, st):
        st.ghost['mode'] = '?'

    def event(self, I, st, ev):
        g = st.ghost
        if g.get('mode') == '?':
            return
        if ev[0] == 'ok' and ev[1] == 'read_line':
            if g.get('pending') is not None:
                self.bad(st, 'a line that was read is not stored')
            line = ev[3]
            if not self.is_src(unwrap(line[1])):
                self.lost(st)
                return
            g['pending'] = line
            g['mode'] = 'lines'
            if g.get('eof'):
                g['eof'] = False
        elif ev[0] == 'ok' and ev[1] == 'read_line_eof':
            g['eof'] = True
            g['mode'] = 'lines'
        elif ev[0] == 'push':
            self.push(I, st, ev[1], ev[2])
        elif ev[0] == 'pop':
            t = MO.content(I, st, ev[2])
            if ev[1][0] == 'seq' and ev[1][1] == g.get('vec') and t is not None and not base.has_u(t) and g.get('pending') is None:
                g['pending'] = t                  # taken back: to be stored again
                st.mem[N] = ('int', addc(st.mem[N][1], -1))
            else:
                self.lost(st)
        elif ev[0] in ('vecmut', 'sort', 'partial', 'insert'):
            self.lost(st)
        elif ev[0] in ('leak', 'forget'):
            self.lost(st)

    def push(self, I, st, vec, v):
        g = st.ghost
        t = whole(MO.content(I, st, v))
        old = g.get('vec')
        if vec[0] != 'seq' or t is None or (old is not None and old != vec[1]):
            self.lost(st)
            return
        g['vec'] = vec[1]
        n = st.mem[N][1]
        p = g.get('pending')
        if isinstance(t, tuple) and t and t[0] == 'elem' and isinstance(t[1], tuple) and t[1][0] == 'split' and self.is_src(t[1][3]):
            if t[1][1] == 'split_inclusive' and t[1][2] == '\n':
                g['mode'] = t[1]
                base.oblige(self.R, I, st, self.name, IP.feq(sub(t[2], n)), f'{self.key} order', 'reading content: a line is left out, repeated or out of order')
            elif t[1][1] == 'lines':
                self.bad(st, 'lines are stored without their terminators')
                self.lost(st)
            else:
                self.lost(st)
        elif p is not None and t == p:
            self.R.ok(self.name)
            g['pending'] = None
        elif base.has_u(t) or not (p is not None and holds(t, p) or isinstance(t, tuple) and t and t[0] in ('line', 'lit', 'cat')):
            self.R.undecided(self.name, f'{self.key}: what is stored is not known')
            self.lost(st)
            return
        else:
            self.bad(st, 'what is stored is not the line that was read')
            g['pending'] = None
        st.mem[N] = ('int', addc(n, 1))

    def done(self, st, seq):
        """success with seq as the lines"""
        I, g = self.I, st.ghost
        n = I.seqlen(st, seq) if seq is not None else None
        if n is None:
            self.R.undecided(self.name, f'{self.key}: the result is not known')
            return
        m = g.get('mode')
        if m == '?':
            self.R.undecided(self.name, f'{self.key}: not followed')
        elif m == 'lines':
            if g.get('pending') is not None:
                self.bad(st, 'a line that was read is not stored')
            elif not g.get('eof'):
                self.bad(st, 'reading stops before the end of the input', strict=True)
            else:
                base.oblige(self.R, I, st, self.name, IP.feq(sub(n, st.mem[N][1])), f'{self.key} result', 'reading content: not every line stored is in the result')
        elif m is not None:
            ln = var(atom(('len', m), 0, LA.MAX))
            base.oblige(self.R, I, st, self.name, IP.feq(sub(st.mem[N][1], ln)), f'{self.key} end', 'reading content: not every line is stored')
            base.oblige(self.R, I, st, self.name, IP.feq(sub(n, ln)), f'{self.key} result', 'reading content: not every line stored is in the result')
        else:
            self.collected(st, seq, n)

    def cut(self, t):
        """is t the source without some of it?"""
        n = 0
        while isinstance(t, tuple) and t and t[0] in ('sub', 'chop', 'chop1', 'trim'):
            if t[0] == 'sub' and not (t[2][1] == () and t[2][0] > 0):
                return False
            t = unwrap(t[3] if t[0] == 'trim' else t[1])
            n += 1
        return n > 0 and self.is_src(t)

    def collected(self, st, seq, n):
        """no line was pushed: the result is the pieces of the text themselves"""
        I = self.I
        k = var(atom(('p', 'k'), 0, LA.MAX))
        s = st.copy()
        if not s.ge(addc(sub(n, k), -1)):
            # empty result: right only if nothing was there
            b = I.strip(s, seq)
            while b[0] == 'box':
                b = b[1]
            if b[0] == 'seq' and b[3] is None:
                self.R.undecided(self.name, f'{self.key}: nothing stored')
            return
        t = whole(MO.content(I, s, I.elem(s, seq, k)))
        if not (isinstance(t, tuple) and t) or base.has_u(t):
            self.R.undecided(self.name, f'{self.key}: the result is not known')
            return
        if t[0] == 'elem' and isinstance(t[1], tuple) and t[1] and t[1][0] == 'split' and self.is_src(unwrap(t[1][3])):
            src = t[1]
            if src[1] == 'split_inclusive' and src[2] == '\n':
                base.oblige(self.R, I, s, self.name, IP.feq(sub(t[2], k)), f'{self.key} order', 'reading content: a line is left out, repeated or out of order')
                base.oblige(self.R, I, st, self.name, IP.feq(sub(n, var(atom(('len', src), 0, LA.MAX)))), f'{self.key} result', 'reading content: not every line is in the result')
                return
            if src[1] == 'lines':
                self.bad(st, 'lines are stored without their terminators')
                return
        if t[0] == 'elem' and isinstance(t[1], tuple) and t[1] and t[1][0] == 'split' and self.cut(unwrap(t[1][3])):
            self.bad(st, 'a part of the text is left out')
            return
        pieces = flatten(t)
        if any(holds(x, 'lines') and holds(x, 'split') for x in pieces) or t[0] == 'trim':
            self.bad(st, 'what is stored is not the line that was read')
            return
        self.R.undecided(self.name, f'{self.key}: the result is not known')


def lines_hook(I, st, c, args, rt):
    """readers that drop line terminators"""
    n = MO.norm(c.path)
    if n == 'BufRead::lines':
        t = MO.content(I, st, args[0])
        st.ghost['lossy'] = 'lines'
        src = ('split', 'lines', None, t)
        return [(st, ('iter', ('opq', src, None), ZERO, var(atom(('len', src), 0, LA.MAX))))]
    if n == 'str::lines':
        st.ghost['lossy'] = 'lines'
    if n == 'Read::take':
        t = MO.content(I, st, args[0])
        return [(st, ('sym', ('part of', t), rt))]
    return None


def result_seq(I, st, v, ty):
    """the item sequence inside a Seq / stored file value"""
    v = I.strip(st, v)
    if v[0] in ('box', 'seq', 'view', 'isym'):
        return v
    vs = ty.r.get('variants') if ty.k == 'adt' else None
    if ty.k == 'adt' and ty.r['path'] in ('alloc::boxed::Box', 'alloc::vec::Vec'):
        return v
    if not vs or len(vs) != 1:
        return None
    for i, f in enumerate(vs[0]['fields']):
        if f['name'] in ('lines', 'bytes', '0', 'items'):
            return result_seq(I, st, I.field(st, v, i, 0), f['ty'])
    return None


def readers(R, p):
    seen = set()
    for f in [f for f in p.fns.values() if f.crate == 'pw_diff_lib' and not f.poly and '{closure' not in f.key]:
        rt = f.locals[0]
        res = rt.k == 'adt' and rt.r['path'] == 'core::result::Result'
        t = rt.r['args'][0] if res else rt
        k = tyname(t)
        if f.argc != 1:
            continue
        if k == 'Seq' and f.name in ('read', 'from') or k in ('PathAndLines', 'PathAndBytes') and f.name == 'new' and res:
            text = 'String' in t.name or k == 'PathAndLines'
            if k == 'Seq' and not (t.name.endswith('<u8>') or text):
                continue
            I = IP.Interp(p)
            I.cap = 400
            I.prehook = lines_hook
            st = IP.State()
            a = base.arg(I, st, f.locals[1], 'a1')
            file = k != 'Seq'
            key = f'{k}::{f.name}({f.locals[1].name.split("::")[-1]})' + (' text' if text else ' bytes')
            seen.add((k, f.name, text))

            def is_src(x, file=file):
                if x == ('p', 'a1') or x == ('all', ('p', 'a1')):
                    return True
                if isinstance(x, tuple) and x and x[0] == 'all':
                    return is_src(unwrap(x[1]), file)
                return file and isinstance(x, tuple) and len(x) > 2 and x[0] == 'file' and x[1] == 'open' and x[2] == (('p', 'a1'),)
            L = Lines(R, I, key, is_src)
            L.init(st)
            if text:
                I.on_event = L.event
            n = 0
            for s, v in I.exec_fn(st, f, [a]):
                if res:
                    v = I.strip(s, v)
                    if v[0] != 'agg':
                        R.undecided('every line is kept as it was read', f'{key}: result')
                        continue
                    if v[2] == 1:
                        continue
                    v = v[3][0]
                n += 1
                q = result_seq(I, s, v, t)
                if text:
                    L.done(s, q)
                    if s.ghost.get('lossy') and s.wid == 0 and s.ghost.get('mode') in (None, '?'):
                        R.violate(L.name, f'{key} lossy', f'reading content: {s.ghost["lossy"]}() drops line terminators')
                else:
                    bytes_whole(R, I, s, q, is_src, key)
            if not n:
                R.undecided('reading', f'{key}: no success')
            R.add_interp(I)
    for x in (('Seq', 'read', True), ('Seq', 'read', False), ('Seq', 'from', True), ('Seq', 'from', False), ('PathAndLines', 'new', True), ('PathAndBytes', 'new', False)):
        if x not in seen:
            R.undecided('anchor', str(x))


def bytes_whole(R, I, s, q, is_src, key):
    name = 'every byte is kept as it was read'
    if q is None:
        R.undecided(name, key)
        return
    a, n = I.seqid(q), I.seqlen(s, q)
    if a is None or n is None or base.has_u(a[0]):
        R.undecided(name, key)
        return
    t = a[0]
    src = is_src(unwrap(t[1]) if t[0] == 'all' else t)
    if not src:
        part = isinstance(t, tuple) and holds(t, 'part of')
        if part:
            R.violate(name, key, 'reading content: only part of the input is read')
        else:
            R.undecided(name, key)
        return
    ln = var(atom(('len', t), 0, LA.MAX))
    base.oblige(R, I, s, name, IP.feq(a[1]), f'{key} start', 'reading content: bytes at the start are left out')
    base.oblige(R, I, s, name, IP.feq(sub(n, ln)), f'{key} length', 'reading content: not all bytes that were read are kept')


# ------------------------------------------------------------------ writing
def writers(R, p):
    seen = set()
    name = 'exactly the requested items are written'
    for f in [f for f in p.fns.values() if f.crate == 'pw_diff_lib' and not f.poly and '{closure' not in f.key and f.name in ('write_into', 'write_into_all_from')]:
        t = f.locals[1]
        t = t.r['inner'] if t.k == 'ref' else t
        k = tyname(t)
        if k not in ('Seq', 'Snippet', 'PathAndLines', 'PathAndBytes'):
            continue
        seen.add((k, f.name))
        variants = [None]
        if k == 'Snippet':
            variants = [False, True]
        for some in variants:
            I = IP.Interp(p)
            I.cap = 400
            st = IP.State()
            sub_ = ('fld', ('p', 'a1'), 0, 0)
            fs = {x['name']: i for i, x in enumerate(t.r['variants'][0]['fields'])}
            i = fs.get('items', fs.get('lines', fs.get('bytes', fs.get('0', 0))))
            term = ('fld', ('p', 'a1'), 0, i)
            n = var(atom(('len', term), 0, LA.MAX))
            into = next((j for j in range(2, f.argc + 1) if f.locals[j].name.startswith('&mut ')), None)
            if into is None:
                R.undecided('shape', f.key)
                continue
            st.mem[('G', 'into')] = IP.mk_sym(('p', 'into'), f.locals[into].r['inner'])
            args = [('refv', IP.mk_sym(('p', 'a1'), t))]
            a, b = ZERO, n
            for j in range(2, f.argc + 1):
                if j == into:
                    args.append(('ref', ('G', 'into'), ()))
                elif tyname(f.locals[j]) == 'Range':
                    r = IP.mk_sym(('p', 'range'), f.locals[j])
                    args.append(r)
                    a, b = (I.field(st, r, z, 0)[1] for z in range(2))
                    st.ge(sub(b, a))
                    st.ge(sub(n, b))
                elif f.locals[j].name.startswith('core::option::Option'):
                    if some:
                        pt = opt_payload(f.locals[j])
                        rs = tuple(IP.mk_sym(('p', f'r{z}'), pt.r['elems'][z]) for z in range(2))
                        a, b = rs[0][1], sub(n, rs[1][1])
                        st.ge(sub(b, a))
                        args.append(('agg', f.locals[j], 1, (('agg', pt, 0, rs),)))
                    else:
                        args.append(('agg', f.locals[j], 0, ()))
                else:
                    x = IP.mk_sym(('p', 'from'), f.locals[j])
                    args.append(x)
                    a = x[1]
                    st.ge(sub(n, a))
            key = f'{k}::{f.name} {"text" if "String" in t.name or k == "PathAndLines" else "bytes"}{" reduced" if some else ""}'
            o = Out(R, I, [('items', term, a, b)], name, key, 'writing content')
            o.init(st)
            I.on_event = o.event
            n_ok = 0
            for s, v in I.exec_fn(st, f, args):
                if v[0] == 'agg' and v[2] == 1:
                    continue
                n_ok += 1
                o.done(s)
            if not n_ok:
                R.undecided(name, f'{key}: no success')
            R.add_interp(I)
    for x in (('Seq', 'write_into'), ('Seq', 'write_into_all_from'), ('Snippet', 'write_into'), ('PathAndLines', 'write_into'), ('PathAndBytes', 'write_into')):
        if x not in seen:
            R.undecided('anchor', str(x))


def c22(R):
    R.rule('every line read is stored once, unaltered and in order, reading goes on to the end of the input, and the result is what was stored')
    R.rule('a write operation passes exactly the requested items to the writer, in order')
    R.assume.append('read_line appends one line with its terminator and returns 0 only at the end; split_inclusive keeps terminators (std contracts)')
    p = mir.load()
    readers(R, p)
    writers(R, p)
