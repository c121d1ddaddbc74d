"""Summaries of the standard library (and of the few third party functions the
workspace calls) for the abstract interpreter.  Anything not listed here returns
an unknown value, forgets whatever it was given mutable access to, and is
counted as unmodelled."""
from . import lin as LA
from .lin import atom, var, const, add, sub, addc, neg, is_const, ZERO, ONE
from . import interp as IP
from .interp import TRUE, FALSE, UNIT, fnot, fand, for_, fge, feq, fresh, mk_sym, mk_int, is_seq_ty, elem_ty, is_str_ty

M = {}
_norm = {}


def model(*names):
    def d(f):
        for n in names:
            M[n] = f
        return f
    return d


def norm(path):
    r = _norm.get(path)
    if r is not None:
        return r
    out = []
    seg = ''
    depth = 0
    i = 0
    p = path
    while i < len(p):
        ch = p[i]
        if ch in '<([':
            depth += 1
            seg += ch
        elif ch in '>)]' and not (ch == '>' and p[i - 1] == '-'):
            depth -= 1
            seg += ch
        elif ch == ':' and depth == 0 and p[i:i + 2] == '::':
            out.append(seg)
            seg = ''
            i += 1
        else:
            seg += ch
        i += 1
    out.append(seg)
    segs = []
    for s in out:
        if s.startswith('<') and len(out) > 1:
            continue
        if '<' in s and not s.startswith('<'):
            s = s[:s.index('<')]
        if s:
            segs.append(s)
    r = '::'.join(segs[-2:])
    _norm[path] = r
    return r


def lookup(I, c):
    fn = I.p.fns.get(c.key)
    if fn is not None and fn.crate.startswith('pw_'):
        return None
    m = M.get(norm(c.path))
    return m


# ------------------------------------------------------------------ helpers
def _variant(rt, name, default):
    if rt is not None and rt.k == 'adt':
        for i, v in enumerate(rt.r.get('variants') or ()):
            if v['name'] == name:
                return i
    return default


def none(rt):
    return ('agg', rt, _variant(rt, 'None', 0), ())


def some(rt, v):
    return ('agg', rt, _variant(rt, 'Some', 1), (v,))


def ok(rt, v):
    return ('agg', rt, _variant(rt, 'Ok', 0), (v,))


def err(rt, v):
    return ('agg', rt, _variant(rt, 'Err', 1), (v,))


def arg_ty(rt, i=0):
    if rt is not None and rt.k == 'adt' and len(rt.r.get('args') or ()) > i:
        return rt.r['args'][i]
    return None


def content(I, st, v):
    """identity (term) of the text / byte string / item held by v"""
    v = I.strip(st, v)
    if v[0] == 'str':
        return v[1]
    if v[0] == 'sym':
        return v[1]
    if v[0] == 'int':
        t = I.item_term(st.canon(v[1]))
        if t is not None:
            return t
    return None


def ceq(a, b):
    if a == b:
        return TRUE
    if a[0] == 'lit' and b[0] == 'lit':
        return TRUE if a[1] == b[1] else FALSE
    return ('ceq',) + tuple(sorted((a, b), key=repr))


def strlen(I, st, c):
    if c[0] == 'lit':
        return const(len(c[1].encode('latin1' if len(c) > 2 else 'utf8')))
    return var(atom(('len', c), 0, LA.MAX))


def touch(I, st, seq, idx, v):
    """item invariants of sequences whose contents are described by a contract"""
    for inv in I.seqinv:
        inv(I, st, seq, idx, v)


def vals_equal(I, st, a, b):
    """formula for a == b"""
    a, b = I.strip(st, a), I.strip(st, b)
    if a == b:
        return TRUE
    if a[0] == 'int' and b[0] == 'int':
        r = I.binop(st, 'Eq', a, b, I.p.types['usize'])
        return r[0][1][1]
    if a[0] == 'bool' and b[0] == 'bool':
        r = I.binop(st, 'Eq', a, b, I.p.types['bool'])
        return r[0][1][1]
    if a[0] == 'agg' and b[0] == 'agg':
        if a[2] != b[2] or len(a[3]) != len(b[3]):
            return FALSE
        f = TRUE
        for x, y in zip(a[3], b[3]):
            f = fand(f, vals_equal(I, st, x, y))
        return f
    if a[0] in ('str', 'sym') and b[0] in ('str', 'sym') and not (a[0] == 'sym' and a[2] is not None and is_seq_ty(a[2])):
        ca, cb = content(I, st, a), content(I, st, b)
        if ca is not None and cb is not None:
            return ceq(ca, cb)
    f = seq_equal(I, st, a, b)
    if f is not None:
        return f
    return ('b', fresh('eq'))


def seq_equal(I, st, a, b):
    na, nb = I.seqlen(st, a), I.seqlen(st, b)
    if na is None or nb is None:
        return None
    ia, ib = I.seqid(a), I.seqid(b)
    e = feq(sub(na, nb))
    if ia is not None and ib is not None:
        return fand(e, ('run', ia[0], ia[1], ib[0], ib[1], na))
    return fand(e, ('b', fresh('seqeq')))


# ------------------------------------------------------------------ iterators
def to_iter(I, st, v):
    """(state, iterator value) alternatives"""
    if v[0] == 'iter' or v[0] == 'itw':
        return [(st, v)]
    if v[0] == 'agg' and v[1] is not None and v[1].k == 'adt':
        p = v[1].r['path']
        if p == 'core::ops::range::Range':
            a, b = I.as_lin(st, v[3][0]), I.as_lin(st, v[3][1])
            out = [(s, ('iter', ('range', a), ZERO, sub(b, a))) for s in st.assume(fge(sub(b, a)), True)]
            out += [(s, ('iter', ('range', a), ZERO, ZERO)) for s in st.assume(fge(sub(b, a)), False)]
            return out
        if p == 'core::ops::range::RangeFrom':
            return [(st, ('iter', ('range', I.as_lin(st, v[3][0])), ZERO, None))]
        if p == 'core::ops::range::RangeInclusive':
            a, b = I.as_lin(st, v[3][0]), I.as_lin(st, v[3][1])
            out = [(s, ('iter', ('range', a), ZERO, addc(sub(b, a), 1))) for s in st.assume(fge(sub(b, a)), True)]
            out += [(s, ('iter', ('range', a), ZERO, ZERO)) for s in st.assume(fge(sub(b, a)), False)]
            return out
        if p in ('core::option::Option',):
            if v[2] == 0:
                return [(st, ('iter', ('once', UNIT), ZERO, ZERO))]
            return [(st, ('iter', ('once', v[3][0]), ZERO, ONE))]
    if v[0] in ('ref', 'refv'):
        u = I.strip(st, v)
        if u[0] == 'iter' or u[0] == 'itw' or (u[0] == 'agg' and u[1] is not None and u[1].k == 'adt' and u[1].r['path'].startswith('core::ops::range::')):
            return [(st, v)]
        n = I.seqlen(st, u)
        if n is not None:
            return [(st, ('iter', ('slice', u, ZERO, True), ZERO, n))]
        return None
    if v[0] in ('seq', 'view', 'isym', 'box') or (v[0] == 'sym' and v[2] is not None and is_seq_ty(v[2])):
        n = I.seqlen(st, v)
        if n is not None:
            return [(st, ('iter', ('slice', v, ZERO, False), ZERO, n))]
    if v[0] == 'sym':
        t = v[1]
        return [(st, ('iter', ('opq', ('itersrc', t), None), ZERO, var(atom(('len', ('itersrc', t)), 0, LA.MAX))))]
    return None


def item_of(rt):
    return arg_ty(rt)


def it_next(I, st, it, back=False):
    """-> list of (state, value|None, new iterator)"""
    _, g, pos, end = it
    out = []
    more = [st.copy()] if end is None else st.assume(fge(addc(sub(end, pos), -1)), True)
    for s in more:
        if back:
            if end is None:
                continue
            ix = addc(end, -1)
            ni = ('iter', g, pos, ix)
        else:
            ix = pos
            ni = ('iter', g, addc(pos, 1), end)
        s = s.copy()
        for s2, v in I.gen_elem(s, g, ix):
            s2 = s2.copy()
            gtouch(I, s2, g, ix, v)
            if not s2.cons.bad:
                out.append((s2, v, ni))
    if end is not None:
        for s in st.assume(fge(addc(sub(end, pos), -1)), False):
            out.append((s, None, it))
    return out


def gtouch(I, st, g, ix, v):
    if not I.seqinv:
        return
    k = g[0]
    if k == 'slice':
        touch(I, st, g[1], add(g[2], ix), v)
    elif k == 'enum' and v[0] == 'agg':
        gtouch(I, st, g[1], add(g[2], ix), v[3][1])
    elif k == 'zip' and v[0] == 'agg':
        gtouch(I, st, g[1], add(g[2], ix), v[3][0])
        gtouch(I, st, g[3], add(g[4], ix), v[3][1])
    elif k == 'step':
        gtouch(I, st, g[1], add(g[2], LA.scale(ix, g[3])), v)
    elif k == 'rev':
        gtouch(I, st, g[1], sub(g[2], ix), v)
    elif k in ('copied', 'refs'):
        gtouch(I, st, g[1], ix, v)


def iter_loc(I, st, a):
    """location of the iterator behind &mut, following by_ref chains"""
    loc = a
    for _ in range(6):
        if loc[0] != 'ref':
            return None, I.strip(st, a)
        v = I.read(st, loc[1], loc[2])
        if v[0] == 'ref':
            loc = v
            continue
        return loc, v
    return None, v


@model('Iterator::next', 'DoubleEndedIterator::next_back', 'Peekable::next_if')
def m_next(I, st, c, args, rt):
    back = c.name == 'next_back'
    loc, v = iter_loc(I, st, args[0])
    if v[0] == 'box':
        v = v[1]
    if v[0] == 'agg' and v[1] is not None and v[1].k == 'adt' and v[1].r['path'] in ('core::ops::range::Range', 'core::ops::range::RangeFrom') and not back:
        a = I.as_lin(st, v[3][0])
        out = []
        if v[1].r['path'].endswith('RangeFrom'):
            s = st.copy()
            I.write(s, loc[1], loc[2], ('agg', v[1], 0, (('int', addc(a, 1)),)))
            return [(s, some(rt, ('int', a)))]
        b = I.as_lin(st, v[3][1])
        for s in st.assume(fge(addc(sub(b, a), -1)), True):
            s = s.copy()
            I.write(s, loc[1], loc[2], ('agg', v[1], 0, (('int', addc(a, 1)), ('int', b))))
            out.append((s, some(rt, ('int', a))))
        for s in st.assume(fge(addc(sub(b, a), -1)), False):
            out.append((s, none(rt)))
        return out
    if v[0] == 'iter':
        out = []
        for s, x, ni in it_next(I, st, v, back):
            s = s.copy()
            if loc is not None:
                I.write(s, loc[1], loc[2], ni)
            if x is None:
                out.append((s, none(rt)))
            else:
                if x[0] == 'sym' and x[2] is None and item_of(rt) is not None:
                    x = mk_sym(x[1], item_of(rt))
                out.append((s, some(rt, x)))
        return out
    its = to_iter(I, st, v) if v[0] == 'agg' or v[0] == 'sym' else None
    if its is not None and loc is not None and its[0][1][0] == 'iter':
        out = []
        for s, it in its:
            s = s.copy()
            I.write(s, loc[1], loc[2], it)
            if iter_loc(I, s, args[0])[1][0] != 'iter':
                # kept where writes cannot be followed
                I.unk('Iterator::next out of reach')
                return opt_unknown(I, st, rt)
            out += m_next(I, s, c, args, rt)
        return out
    I.unk('Iterator::next on ' + v[0])
    return opt_unknown(I, st, rt)


def opt_unknown(I, st, rt):
    t = item_of(rt)
    s1, s2 = st.copy(), st.copy()
    return [(s1, none(rt)), (s2, some(rt, I.opaque(t, 'item') if t is not None else ('sym', fresh('item'), None)))]


@model('Peekable::peek', 'Peekable::peek_mut')
def m_peek(I, st, c, args, rt):
    loc, v = iter_loc(I, st, args[0])
    if v[0] == 'iter':
        out = []
        for s, x, ni in it_next(I, st, v):
            if x is not None and x[0] == 'sym' and x[2] is None and item_of(rt) is not None and item_of(rt).k == 'ref':
                x = mk_sym(x[1], item_of(rt).r['inner'])
            out.append((s, none(rt) if x is None else some(rt, ('refv', x))))
        return out
    if v[0] == 'sym':
        its = to_iter(I, st, v)
        if its and loc is not None:
            s = its[0][0].copy()
            I.write(s, loc[1], loc[2], its[0][1])
            if iter_loc(I, s, args[0])[1][0] == 'iter':
                return m_peek(I, s, c, args, rt)
    I.unk('peek on ' + v[0])
    return opt_unknown(I, st, rt)


def wrap(f):
    """model of an adapter taking an iterator by value"""
    def g(I, st, c, args, rt):
        its = to_iter(I, st, args[0])
        if its is None or any(i[0] != 'iter' for _, i in its):
            its2 = None
            if args[0][0] == 'ref':
                loc, v = iter_loc(I, st, args[0])
                if v[0] == 'iter' and c.name in ('take', 'zip', 'enumerate', 'map', 'all', 'any', 'count', 'take_while', 'skip', 'collect', 'for_each'):
                    # by_ref: the underlying iterator advances by an unknown amount
                    s = st.copy()
                    n = var(atom(fresh('adv'), 0, LA.MAX, True))
                    if v[3] is not None:
                        s.ge(sub(sub(v[3], v[2]), n))
                    I.write(s, loc[1], loc[2], ('iter', v[1], add(v[2], n), v[3]))
                    its2 = [(s, v)]
            if its2 is None:
                I.unk('adapter ' + c.name)
                return [(st, ('iter', ('opq', fresh('iter'), None), ZERO, var(atom(fresh('n'), 0, LA.MAX, True))))] if is_adapter(c.name) else None
            its = its2
        out = []
        for s, it in its:
            out += f(I, s, c, it, args[1:], rt)
        return out
    return g


def is_adapter(n):
    return n in ('map', 'zip', 'rev', 'enumerate', 'take', 'skip', 'filter', 'chain', 'peekable', 'cloned', 'copied', 'take_while', 'skip_while', 'inspect', 'fuse', 'step_by', 'flat_map', 'filter_map', 'by_ref', 'scan', 'map_while')


@model('IntoIterator::into_iter', 'Vec::into_iter', 'slice::iter', 'Vec::iter', 'Iterator::by_ref', 'array::iter', 'VecDeque::iter', 'BTreeMap::iter', 'Option::iter')
def m_into_iter(I, st, c, args, rt):
    if c.name == 'by_ref':
        return [(st, args[0])]
    a = args[0]
    r = to_iter(I, st, a)
    if r is None:
        return [(st, a)]
    return r


@model('slice::iter_mut', 'Vec::iter_mut')
def m_iter_mut(I, st, c, args, rt):
    a = args[0]
    if a[0] == 'ref':
        n = I.seqlen(st, I.read(st, a[1], a[2]))
        if n is not None:
            return [(st, ('iter', ('mutslice', a[1], a[2], ZERO), ZERO, n))]
    return None


def m_fuse(I, s, c, it, args, rt):
    return [(s, it)]


for _n in ('peekable', 'fuse'):
    M['Iterator::' + _n] = wrap(m_fuse)


def m_enumerate(I, s, c, it, args, rt):
    _, g, pos, end = it
    return [(s, ('iter', ('enum', g, pos), ZERO, None if end is None else sub(end, pos)))]


M['Iterator::enumerate'] = wrap(m_enumerate)


def m_rev(I, s, c, it, args, rt):
    _, g, pos, end = it
    if end is None:
        return None
    return [(s, ('iter', ('rev', g, addc(end, -1)), ZERO, sub(end, pos)))]


M['Iterator::rev'] = wrap(m_rev)


def m_map(I, s, c, it, args, rt):
    return [(s, ('iter', ('map', it[1], args[0]), it[2], it[3]))]


M['Iterator::map'] = wrap(m_map)


def m_copied(I, s, c, it, args, rt):
    return [(s, ('iter', ('copied', it[1]), it[2], it[3]))]


M['Iterator::copied'] = wrap(m_copied)
M['Iterator::cloned'] = wrap(m_copied)


def m_zip(I, s, c, it, args, rt):
    out = []
    bs = to_iter(I, s, args[0])
    if bs is None:
        return [(s, ('iter', ('opq', fresh('zip'), None), ZERO, var(atom(fresh('n'), 0, LA.MAX, True))))]
    for s2, b in bs:
        if b[0] != 'iter':
            return [(s2, ('iter', ('opq', fresh('zip'), None), ZERO, var(atom(fresh('n'), 0, LA.MAX, True))))]
        g = ('zip', it[1], it[2], b[1], b[2])
        na = None if it[3] is None else sub(it[3], it[2])
        nb = None if b[3] is None else sub(b[3], b[2])
        if na is None or nb is None:
            out.append((s2, ('iter', g, ZERO, na if nb is None else nb)))
            continue
        d = fge(sub(nb, na))
        out += [(x, ('iter', g, ZERO, na)) for x in s2.assume(d, True)]
        out += [(x, ('iter', g, ZERO, nb)) for x in s2.assume(d, False)]
    return out


M['Iterator::zip'] = wrap(m_zip)


def m_take(I, s, c, it, args, rt):
    n = I.as_lin(s, args[0])
    _, g, pos, end = it
    if end is None:
        return [(s, ('iter', g, pos, add(pos, n)))]
    d = fge(sub(sub(end, pos), n))
    return [(x, ('iter', g, pos, add(pos, n))) for x in s.assume(d, True)] + [(x, it) for x in s.assume(d, False)]


def m_skip(I, s, c, it, args, rt):
    n = I.as_lin(s, args[0])
    _, g, pos, end = it
    if end is None:
        return [(s, ('iter', g, add(pos, n), None))]
    d = fge(sub(sub(end, pos), n))
    return [(x, ('iter', g, add(pos, n), end)) for x in s.assume(d, True)] + [(x, ('iter', g, end, end)) for x in s.assume(d, False)]


M['Iterator::take'] = wrap(m_take)
M['Iterator::skip'] = wrap(m_skip)


def m_take_while(I, s, c, it, args, rt):
    n = few_left(I, s, it)
    if n is not None and n < 3 and I.exact_maps:
        out, cur = [], [s]
        for i in range(n):
            at = addc(it[2], i)
            nxt = []
            for s1 in cur:
                for s2, x in I.gen_elem(s1, it[1], at):
                    gtouch(I, s2, it[1], at, x)
                    for s3, b in holds(I, s2, args[0], x):
                        if b is not True:
                            out.append((s3, ('iter', it[1], it[2], at)))
                        if b is not False:
                            nxt.append(s3)
            cur = nxt
        return out + [(s1, it) for s1 in cur]
    return [(s, ('itw', it, args[0]))]


M['Iterator::take_while'] = wrap(m_take_while)


def m_opq_adapter(I, s, c, it, args, rt):
    n = var(atom(fresh('n'), 0, LA.MAX, True))
    s = s.copy()
    if it[3] is not None and c.name in ('filter', 'skip_while', 'filter_map', 'step_by', 'map_while'):
        s.ge(sub(sub(it[3], it[2]), n))
    I.unk('Iterator::' + c.name)
    return [(s, ('iter', ('opq', fresh(c.name), None), ZERO, n))]


def few_left(I, s, it):
    """the number of items left, when it is known and small"""
    if it[3] is None or s.wid or it[1][0] == 'opq':
        return None
    n = s.canon(sub(it[3], it[2]))
    return n[0] if not n[1] and 0 <= n[0] <= min(I.peel, 8) else None


def holds(I, s, pred, x):
    """(state, outcome) of a predicate on an item"""
    for s1, v in I.call_value(s, pred, [('refv', x)], None):
        if v[0] != 'bool':
            I.unk('predicate')
            yield s1, None
            continue
        for b in (True, False):
            for s2 in s1.assume(v[1], b):
                if not s2.cons.bad:
                    yield s2, b


def m_filter(I, s, c, it, args, rt):
    n = few_left(I, s, it)
    if n is None or n > 3:
        return m_opq_adapter(I, s, c, it, args, rt)
    cur = [(s, ())]
    for i in range(n):
        nxt = []
        for s1, xs in cur:
            for s2, x in I.gen_elem(s1, it[1], addc(it[2], i)):
                gtouch(I, s2, it[1], addc(it[2], i), x)
                for s3, b in holds(I, s2, args[0], x):
                    if b is None:
                        return m_opq_adapter(I, s, c, it, args, rt)
                    nxt.append((s3, xs + (x,) if b else xs))
        cur = nxt
    return [(s1, ('iter', ('list',) + xs, ZERO, const(len(xs)))) for s1, xs in cur]


M['Iterator::filter'] = wrap(m_filter)


def m_skip_while(I, s, c, it, args, rt):
    n = few_left(I, s, it)
    if n is not None:
        out, cur = [], [s]
        for i in range(n):
            at = addc(it[2], i)
            nxt = []
            for s1 in cur:
                for s2, x in I.gen_elem(s1, it[1], at):
                    gtouch(I, s2, it[1], at, x)
                    for s3, b in holds(I, s2, args[0], x):
                        if b is not True:
                            out.append((s3, ('iter', it[1], at, it[3])))
                        if b is not False:
                            nxt.append(s3)
            cur = nxt
        return out + [(s1, ('iter', it[1], it[3], it[3])) for s1 in cur]
    n = var(atom(('matched', I.newentry()), 0, LA.MAX))
    s = s.copy()
    if it[3] is None:
        return m_opq_adapter(I, s, c, it, args, rt)
    left = sub(sub(it[3], it[2]), n)
    s.ge(left)
    f = forall_formula(I, s, it, args[0], n)
    out = []
    for s1 in (s.assume(f, True) if f is not None else [s]):
        for s2 in s1.assume(feq(left), True):
            out.append((s2, ('iter', it[1], it[3], it[3])))
        for s2 in s1.assume(fge(addc(left, -1)), True):
            # the first item left does not satisfy the predicate
            for s3, x in I.gen_elem(s2, it[1], add(it[2], n)):
                for s4, v in I.call_value(s3, args[0], [('refv', x)], None):
                    for s5 in (s4.assume(v[1], False) if v[0] == 'bool' else [s4]):
                        out.append((s5, ('iter', it[1], add(it[2], n), it[3])))
    return out


M['Iterator::skip_while'] = wrap(m_skip_while)



def m_step_by(I, s, c, it, args, rt):
    k = s.canon(I.as_lin(s, args[0]))
    if k[1] or k[0] < 1:
        return m_opq_adapter(I, s, c, it, args, rt)
    k = k[0]
    g = ('step', it[1], it[2], k)
    if it[3] is None:
        return [(s, ('iter', g, ZERO, None))]
    n = sub(it[3], it[2])
    q = var(atom(('div', s.canon(addc(n, k - 1)), k), 0, LA.MAX))
    s = s.copy()
    s.ge(sub(LA.scale(q, k), n))
    s.ge(addc(sub(n, LA.scale(q, k)), k - 1))
    return [(s, ('iter', g, ZERO, q))]


M['Iterator::step_by'] = wrap(m_step_by)


@model('RangeInclusive::new')
def m_range_inclusive(I, st, c, args, rt):
    return [(st, ('agg', rt, 0, (args[0], args[1], ('bool', IP.FALSE))))] if rt is not None else None


for _n in ('filter_map', 'flat_map', 'chain', 'scan', 'inspect', 'map_while', 'flatten', 'cycle'):
    M['Iterator::' + _n] = wrap(m_opq_adapter)


def pred_at(I, s, it, pred, i):
    """formula of the predicate on item i of the iterator, or None"""
    rs = []
    for s1, x in I.gen_elem(s, it[1], i):
        rs += [(s2, v) for s2, v in I.call_value(s1, pred, [x], None)]
    if len(rs) == 1 and rs[0][1][0] == 'bool':
        return rs[0][1][1]
    # several paths: the disjunction of nothing useful
    return None


def forall_formula(I, s, it, pred, n, negate=False):
    """formula for 'pred holds for items pos..pos+n'; None if it cannot be expressed"""
    io = atom(('iota', I.where()[0].key if I.where() and hasattr(I.where()[0], 'key') else '?', len(I.frames)), 0, LA.MAX)
    f = pred_at(I, s, it, pred, add(it[2], var(io)))
    if f is None:
        return None
    if negate:
        f = fnot(f)
    return quantify(I, s, f, io, n)


def quantify(I, s, f, io, n):
    if f in (TRUE, FALSE):
        return TRUE if f == TRUE else feq(n)
    if f[0] == 'and':
        a, b = quantify(I, s, f[1], io, n), quantify(I, s, f[2], io, n)
        return None if a is None or b is None else fand(a, b)
    if f[0] == 'ceq' and f[1][0] == 'elem' and f[2][0] == 'elem':
        A, x, B, y = f[1][1], s.canon(f[1][2]), f[2][1], s.canon(f[2][2])
        cx, cy = dict(x[1]).get(io, 0), dict(y[1]).get(io, 0)
        if cx == cy and cx in (1, -1):
            x0, y0 = LA.subst(x, {io: ZERO}), LA.subst(y, {io: ZERO})
            if cx == 1:
                return ('run', A, x0, B, y0, n)
            return ('run', A, addc(sub(x0, n), 1), B, addc(sub(y0, n), 1), n)
    return None


def m_count(I, st, c, args, rt):
    v = args[0]
    if v[0] == 'itw':
        it, pred = v[1], v[2]
        # any number of items may satisfy the predicate before one does not
        n = var(atom(('matched', I.newentry()), 0, LA.MAX))
        s = st.copy()
        if it[3] is not None:
            s.ge(sub(sub(it[3], it[2]), n))
        f = forall_formula(I, s, it, pred, n)
        if f is None:
            I.unk('take_while predicate')
            return [(s, ('int', n))]
        out = s.assume(f, True)
        if I.exact_maps and it[3] is not None:
            # the count ends at the end of the items or at one that fails
            left, end = sub(sub(it[3], it[2]), n), []
            for x in out:
                end += x.assume(feq(left), True)
                for x in x.assume(fge(addc(left, -1)), True):
                    for x, e in I.gen_elem(x, it[1], add(it[2], n)):
                        for x, b in holds(I, x, pred, e):
                            if b is not True:
                                end.append(x)
            out = end
        return [(x, ('int', n)) for x in out]
    return wrap(lambda I, s, c, it, a, rt: [(s, ('int', sub(it[3], it[2]) if it[3] is not None else var(atom(fresh('count'), 0, LA.MAX, True))))])(I, st, c, args, rt)


M['Iterator::count'] = m_count
M['ExactSizeIterator::len'] = m_count


def m_all(I, s, c, it, args, rt):
    n = None if it[3] is None else sub(it[3], it[2])
    if n is None:
        return [(s, ('bool', ('b', fresh(c.name))))]
    anyq = c.name == 'any'
    f = forall_formula(I, s, it, args[0], n, negate=anyq)
    if f is None:
        return m_each(I, s, c, [it] + list(args), rt)
    return [(s, ('bool', fnot(f) if anyq else f))]


def m_all_ref(I, st, c, args, rt):
    a = args[0]
    if a[0] == 'ref':
        loc, v = iter_loc(I, st, a)
        if v[0] in ('iter', 'agg', 'sym', 'seq'):
            its = to_iter(I, st, v)
            if its:
                out = []
                for s, it in its:
                    if it[0] == 'iter':
                        out += m_all(I, s, c, it, args[1:], rt)
                    else:
                        out.append((s, ('bool', ('b', fresh(c.name)))))
                return out
    if a[0] == 'refv' and a[1][0] == 'iter':
        return m_all(I, st, c, a[1], args[1:], rt)
    I.unk('Iterator::all on ' + a[0])
    return [(st, ('bool', ('b', fresh(c.name))))]


M['Iterator::all'] = m_all_ref
M['Iterator::any'] = m_all_ref


def m_collect(I, s, c, it, args, rt):
    n = None if it[3] is None else sub(it[3], it[2])
    if n is None:
        n = var(atom(fresh('collect'), 0, LA.MAX, True))
    ety = None
    if rt is not None:
        t = rt
        if t.k == 'adt' and t.r['path'] == 'alloc::boxed::Box':
            t = t.r['args'][0]
        if is_str_ty(t):
            I.unk('collect into string')
            return [(s, ('str', fresh('collected')))]
        if not is_seq_ty(t):
            I.unk('collect into ' + t.name)
            return [(s, I.opaque(rt, 'collect'))]
        ety = elem_ty(t)
    s = s.copy()
    nn = s.canon(n)
    if it[1][0] == 'map' and not nn[1] and 0 < nn[0] <= min(I.peel, 8) and not (rt is not None and rt.k == 'adt' and rt.r['path'] == 'alloc::boxed::Box'):
        # few items: one after the other
        done, cur = [], [(s, it, ())]
        while cur:
            nxt = []
            for s1, i1, items in cur:
                for s2, x, i2 in it_next(I, s1, i1, False):
                    if x is None:
                        w = ('seq', ('collect', I.sitekey()), ety, None, ZERO, items, ())
                        I.event(s2, 'collect', it, w)
                        done.append((s2, w))
                    else:
                        nxt.append((s2, i2, items + (x,)))
            cur = nxt
        return done
    if it[1][0] == 'map':
        # run the closure once on a representative item: its effects and obligations count
        k = s.copy()
        j = var(atom(fresh('k'), 0, LA.MAX))
        if k.ge(addc(sub(n, j), -1)):
            I.gen_elem(k, it[1], add(it[2], j))
    v = ('seq', ('collect', I.sitekey()), ety, ('gen', it[1], it[2]), n, (), ())
    if rt is not None and rt.k == 'adt' and rt.r['path'] == 'alloc::boxed::Box':
        v = ('box', v)
    I.event(s, 'collect', it, v)
    return [(s, v)]


M['Iterator::collect'] = wrap(m_collect)


def m_last(I, s, c, it, args, rt):
    out = []
    for s2, x, _ in it_next(I, s, it, True):
        out.append((s2, none(rt) if x is None else some(rt, x)))
    return out


M['Iterator::last'] = wrap(m_last)


@model('Iterator::nth')
def m_nth(I, st, c, args, rt):
    loc, v = iter_loc(I, st, args[0])
    if v[0] == 'iter' and loc is not None:
        n = I.as_lin(st, args[1])
        out = []
        for s, it in m_skip(I, st, c, v, [args[1]], rt):
            for s2, x, ni in it_next(I, s, it):
                s2 = s2.copy()
                I.write(s2, loc[1], loc[2], ni)
                out.append((s2, none(rt) if x is None else some(rt, x)))
        return out
    I.unk('nth')
    return opt_unknown(I, st, rt)


def m_for_each(I, s, c, it, args, rt):
    """effects of the closure on a representative item; everything it captured mutably becomes unknown"""
    I.unk('Iterator::' + c.name)
    s = s.copy()
    k = s.copy()
    j = var(atom(fresh('k'), 0, LA.MAX))
    n = None if it[3] is None else sub(it[3], it[2])
    if n is None or k.ge(addc(sub(n, j), -1)):
        for s1, x in I.gen_elem(k, it[1], add(it[2], j)):
            I.call_value(s1, args[-1], [x] if c.name != 'fold' else [('sym', fresh('acc'), None), x], None)
    havoc_args(I, s, args)
    return [(s, I.opaque(rt, c.name) if rt is not None else ('sym', fresh(c.name), None))]


def drive(I, st, c, args, rt, acc, on_item, at_end):
    """a library function that calls a closure for each item: an ordinary loop
    on_item(state, item, acc) -> [('go', state, acc) | ('stop', state, value)]; at_end(state, acc) -> [(state, value)]"""
    loc = None
    if args[0][0] == 'ref':
        loc, v = iter_loc(I, st, args[0])
        its = to_iter(I, st, v)
    else:
        its = to_iter(I, st, args[0])
    if not its or any(i[0] != 'iter' for _, i in its):
        return None
    out = []
    for s0, it in its:
        def step(s, key):
            res = []
            cur = s.mem[('H', 'it', key)]
            a = s.mem[('H', 'acc', key)]
            if cur[0] != 'iter':
                I.unk('iterator of ' + c.name)
                return res
            for s1, x, ni in it_next(I, s, cur):
                if x is None:
                    for s2, v in at_end(s1, a):
                        res.append(('stop', put(s2, ni), v))
                    continue
                s1 = s1.copy()
                s1.mem[('H', 'it', key)] = ni
                for r in on_item(s1, x, a):
                    if r[0] == 'go':
                        s2 = r[1].copy()
                        s2.mem[('H', 'acc', key)] = r[2]
                        res.append(('go', s2))
                    else:
                        res.append(('stop', put(r[1], r[1].mem.get(('H', 'it', key), ni)), r[2]))
            return res

        def put(s, ni):
            if loc is None:
                return s
            s = s.copy()
            I.write(s, loc[1], loc[2], ni)
            return s
        out += I.iterate(s0, {'it': it, 'acc': acc}, step, 'Iterator::' + c.name, args[1:])
    return out


def truth(I, st, v):
    """[(state, bool)]"""
    v = I.strip(st, v)
    if v[0] != 'bool':
        return [(st.copy(), True), (st.copy(), False)]
    return [(s, True) for s in st.assume(v[1], True)] + [(s, False) for s in st.assume(v[1], False)]


def try_step(I, rt, s, v, go):
    """the ? operator inside try_for_each / try_fold: go(state, payload) continues"""
    res = []
    alts = variant_split(I, s, v)
    if alts is None:
        I.unk('try closure result')
        return None
    for s2, a in alts:
        name = a[1].r['path'].split('::')[-1]
        vn = a[1].r['variants'][a[2]]['name']
        if vn in ('Ok', 'Some', 'Continue'):
            res.append(go(s2, a[3][0] if a[3] else UNIT))
        else:
            ri = [i for i, x in enumerate(rt.r['variants']) if x['name'] == vn]
            res.append(('stop', s2, ('agg', rt, ri[0], a[3])))
    return res


def good(rt, v):
    for i, x in enumerate(rt.r['variants']):
        if x['name'] in ('Ok', 'Some', 'Continue'):
            return ('agg', rt, i, (v,))


def m_each(I, st, c, args, rt):
    n, f = c.name, args[-1]
    cv = lambda s, xs, ty=None: I.call_value(s, f, xs, ty)
    r = None
    if n == 'for_each':
        r = drive(I, st, c, args, rt, UNIT, lambda s, x, a: [('go', s2, UNIT) for s2, _ in cv(s, [x])], lambda s, a: [(s, UNIT)])
    elif n == 'fold':
        r = drive(I, st, c, args, rt, args[1], lambda s, x, a: [('go', s2, v) for s2, v in cv(s, [a, x], rt)], lambda s, a: [(s, a)])
    elif n in ('try_for_each', 'try_fold') and rt is not None and rt.k == 'adt' and rt.r.get('variants'):
        def item(s, x, a):
            res = []
            for s2, v in cv(s, [x] if n == 'try_for_each' else [a, x], rt):
                y = try_step(I, rt, s2, v, lambda s3, p: ('go', s3, p if n == 'try_fold' else UNIT))
                res += y if y is not None else [('stop', s2, I.opaque(rt, n))]
            return res
        r = drive(I, st, c, args, rt, args[1] if n == 'try_fold' else UNIT, item, lambda s, a: [(s, good(rt, a))])
    elif n == 'position':
        def item(s, x, a):
            return [('stop', s3, some(rt, a)) if b else ('go', s3, ('int', addc(a[1], 1)) if a[0] == 'int' else a) for s2, v in cv(s, [x]) for s3, b in truth(I, s2, v)]
        r = drive(I, st, c, args, rt, ('int', ZERO), item, lambda s, a: [(s, none(rt))])
    elif n == 'find':
        def item(s, x, a):
            return [('stop', s3, some(rt, x)) if b else ('go', s3, UNIT) for s2, v in cv(s, [('refv', x)]) for s3, b in truth(I, s2, v)]
        r = drive(I, st, c, args, rt, UNIT, item, lambda s, a: [(s, none(rt))])
    elif n == 'find_map':
        def item(s, x, a):
            res = []
            for s2, v in cv(s, [x], rt):
                for s3, w in variant_split(I, s2, v) or [(s2, I.opaque(rt, n))]:
                    res.append(('go', s3, UNIT) if w[0] == 'agg' and w[2] == 0 else ('stop', s3, w))
            return res
        r = drive(I, st, c, args, rt, UNIT, item, lambda s, a: [(s, none(rt))])
    elif n in ('all', 'any'):
        def item(s, x, a):
            return [('go', s3, UNIT) if b == (n == 'all') else ('stop', s3, ('bool', FALSE if n == 'all' else TRUE)) for s2, v in cv(s, [x]) for s3, b in truth(I, s2, v)]
        r = drive(I, st, c, args, rt, UNIT, item, lambda s, a: [(s, ('bool', TRUE if n == 'all' else FALSE))])
    elif n == 'sum' and rt is not None and rt.k == 'int':
        def item(s, x, a):
            x = I.strip(s, x)
            if x[0] != 'int' or a[0] != 'int':
                return [('go', s, I.opaque(rt, 'sum'))]
            return [('go', s, ('int', add(a[1], x[1])))]
        r = drive(I, st, c, args, rt, ('int', ZERO), item, lambda s, a: [(s, a)])
    return m_reduce(I, st, c, args, rt) if r is None else r


for _n in ('for_each', 'try_for_each', 'fold', 'try_fold', 'position', 'find', 'find_map', 'sum'):
    M['Iterator::' + _n] = m_each
for _n in ('max', 'min', 'max_by_key', 'min_by_key', 'unzip', 'partition'):
    M['Iterator::' + _n] = None


def m_reduce(I, st, c, args, rt):
    its = to_iter(I, st, args[0]) if args[0][0] != 'ref' else None
    s = st.copy()
    I.unk('Iterator::' + c.name)
    if its and len(args) > 1:
        for s1, it in its:
            if it[0] == 'iter':
                m_for_each(I, s1, c, it, args[1:], rt)
    havoc_args(I, s, args)
    if rt is None:
        return [(s, ('sym', fresh(c.name), None))]
    return [(s, I.opaque(rt, c.name))]


for _n in [k for k, v in M.items() if v is None]:
    M[_n] = m_reduce


@model('Iterator::size_hint')
def m_size_hint(I, st, c, args, rt):
    return [(st, I.opaque(rt, 'size_hint'))]


# ------------------------------------------------------------------ option / result leftovers
def variant_split(I, st, v, ty=None):
    """(state, agg) alternatives of an enum value"""
    if v[0] == 'agg':
        return [(st, v)]
    ty = v[2] if v[0] == 'sym' else ty
    if ty is None or ty.k != 'adt' or not ty.r.get('variants'):
        return None
    out = []
    d = I.discr(st, v, ty)[1]
    for i, vr in enumerate(ty.r['variants']):
        for s in st.assume(feq(addc(d, -vr['discr'])), True):
            fs = tuple(I.field(s, v, k, i, f['ty']) for k, f in enumerate(vr['fields']))
            out.append((s, ('agg', ty, i, fs)))
    return out


@model('Option::is_some', 'Option::is_none', 'Result::is_ok', 'Result::is_err')
def m_is_some(I, st, c, args, rt):
    v = I.strip(st, args[0])
    r = variant_split(I, st, v)
    if r is None:
        return None
    want = {'is_some': 1, 'is_none': 0, 'is_ok': 0, 'is_err': 1}[c.name]
    return [(s, ('bool', TRUE if a[2] == want else FALSE)) for s, a in r]


@model('Option::copied', 'Option::cloned')
def m_opt_copied(I, st, c, args, rt):
    r = variant_split(I, st, args[0])
    if r is None:
        return None
    return [(s, none(rt) if a[2] == 0 else some(rt, I.deref_val(s, a[3][0]))) for s, a in r]


@model('Option::as_ref', 'Option::as_deref', 'Result::as_ref')
def m_as_ref(I, st, c, args, rt):
    v = I.strip(st, args[0])
    r = variant_split(I, st, v)
    if r is None:
        return None
    return [(s, ('agg', rt, a[2], tuple(('refv', x) for x in a[3]))) for s, a in r]


@model('Option::as_mut')
def m_as_mut(I, st, c, args, rt):
    a = args[0]
    if a[0] != 'ref':
        return None
    v = I.read(st, a[1], a[2])
    r = variant_split(I, st, v)
    if r is None:
        return None
    out = []
    for s, g in r:
        s = s.copy()
        I.write(s, a[1], a[2], g)
        out.append((s, none(rt) if g[2] == 0 else some(rt, ('ref', a[1], a[2] + (('v', 1), ('f', 0))))))
    return out


@model('Option::take', 'Option::replace', 'Option::insert')
def m_take_opt(I, st, c, args, rt):
    a = args[0]
    if a[0] != 'ref':
        return None
    v = I.read(st, a[1], a[2])
    s = st.copy()
    if c.name == 'take':
        I.write(s, a[1], a[2], none(rt))
    else:
        I.write(s, a[1], a[2], some(v[1] if v[0] == 'agg' else v[2], args[1]))
        if c.name == 'insert':
            return [(s, ('ref', a[1], a[2] + (('v', 1), ('f', 0))))]
    return [(s, v)]


@model('mem::take', 'mem::replace', 'mem::swap')
def m_mem(I, st, c, args, rt):
    a = args[0]
    if a[0] != 'ref':
        return None
    v = I.read(st, a[1], a[2])
    s = st.copy()
    if c.name == 'swap':
        b = args[1]
        if b[0] != 'ref':
            return None
        w = I.read(st, b[1], b[2])
        I.write(s, a[1], a[2], w)
        I.write(s, b[1], b[2], v)
        return [(s, UNIT)]
    if c.name == 'replace':
        I.write(s, a[1], a[2], args[1])
    else:
        I.write(s, a[1], a[2], default_of(I, rt))
    return [(s, v)]


def default_of(I, ty):
    if ty is None:
        return ('sym', fresh('default'), None)
    if ty.k == 'int':
        return ('int', ZERO)
    if ty.k == 'bool':
        return ('bool', FALSE)
    if ty.k == 'tuple':
        return ('agg', ty, 0, tuple(default_of(I, t) for t in ty.r['elems']))
    if ty.k == 'adt':
        p = ty.r['path']
        if p == 'alloc::vec::Vec':
            return ('seq', ('v', 'default', I.sitekey()), ty.r['args'][0], None, ZERO, (), ())
        if p == 'core::option::Option':
            return none(ty)
        if p == 'alloc::string::String':
            return ('str', ('lit', ''))
        if p == 'alloc::boxed::Box' and ty.r['args'][0].k == 'slice':
            return ('box', ('seq', ('v', 'default', I.sitekey()), ty.r['args'][0].r['inner'], None, ZERO, (), ()))
        if p == 'std::collections::hash::map::HashMap':
            return new_map(I, ty)
    return I.opaque(ty, 'default')


@model('Default::default')
def m_default(I, st, c, args, rt):
    return [(st, default_of(I, rt))]


@model('Try::branch')
def m_branch(I, st, c, args, rt):
    r = variant_split(I, st, args[0])
    if r is None:
        return None
    out = []
    for s, a in r:
        isopt = a[1] is not None and a[1].k == 'adt' and a[1].r['path'] == 'core::option::Option'
        good = a[2] == (1 if isopt else 0)
        if good:
            out.append((s, ('agg', rt, _variant(rt, 'Continue', 0), (a[3][0],))))
        else:
            res = ('agg', arg_ty(rt, 0), 0 if isopt else 1, a[3])
            out.append((s, ('agg', rt, _variant(rt, 'Break', 1), (res,))))
    return out


@model('FromResidual::from_residual')
def m_residual(I, st, c, args, rt):
    v = args[0]
    if rt is not None and rt.k == 'adt' and rt.r['path'] == 'core::option::Option':
        return [(st, none(rt))]
    e = v[3][0] if v[0] == 'agg' and v[3] else ('sym', fresh('err'), arg_ty(rt, 1))
    if e[0] == 'sym' and arg_ty(rt, 1) is not None and e[2] is not arg_ty(rt, 1):
        e = ('sym', e[1], arg_ty(rt, 1))
    return [(st, err(rt, e))]


@model('option::unwrap_failed', 'option::expect_failed', 'result::unwrap_failed', 'unwrap_failed::unwrap_failed_inner', 'panicking::panic',
       'panicking::panic_fmt', 'panicking::panic_display', 'panicking::panic_const', 'panicking::assert_failed', 'panicking::unreachable_display',
       'panicking::panic_explicit', 'panicking::unreachable_default_msg', 'panicking::panic_in_cleanup', 'panicking::panic_nounwind', 'rt::begin_panic', 'rt::panic_fmt', 'panicking::panic_bounds_check')
def m_panic(I, st, c, args, rt):
    fn, line = I.where_ws()
    msg = ''
    for a in args:
        v = I.strip(st, a)
        if v[0] == 'str' and v[1][0] == 'lit':
            msg = v[1][1]
    I.panic(st, fn, 'call:' + c.name + (':' + msg if msg else ''), line)
    return []


@model('process::exit', 'process::abort')
def m_exit(I, st, c, args, rt):
    s = st.copy()
    code = st.canon(I.as_lin(st, args[0])) if args else const(134)
    I.event(s, 'exit', code)
    I.terminals.append((s, 'exit', code))
    return []


# ------------------------------------------------------------------ vectors and slices
@model('Vec::new', 'Vec::with_capacity')
def m_vec_new(I, st, c, args, rt):
    return [(st, ('seq', ('v', I.sitekey()), c.args[0] if c.args else None, None, ZERO, (), ()))]


def as_seq(I, st, v):
    """normalise an unknown vector to an extensible sequence value"""
    if v[0] == 'seq':
        return v
    if v[0] == 'sym':
        ety = elem_ty(v[2]) if v[2] is not None else None
        return ('seq', ('of', v[1]), ety, v[1], I.seqlen(st, v) or var(atom(('len', v[1]), 0, LA.MAX)), (), ())
    if v[0] in ('view', 'isym'):
        return ('seq', ('of', v), None, ('of', v), I.seqlen(st, v), (), ())
    if v[0] == 'box':
        return as_seq(I, st, v[1])
    return None


def vec_at(I, st, a):
    """(loc, seq value) for a &mut Vec argument"""
    if a[0] != 'ref':
        return None, None
    v = I.read(st, a[1], a[2])
    n = 0
    while v[0] == 'ref' and n < 5:
        a = v
        v = I.read(st, a[1], a[2])
        n += 1
    return a, as_seq(I, st, v)


@model('Vec::push', 'VecDeque::push_back', 'Vec::push_within_capacity')
def m_push(I, st, c, args, rt):
    a, v = vec_at(I, st, args[0])
    s = st.copy()
    if v is None:
        I.event(s, 'push', args[0], args[1], c)
        I.unk('push to unknown vector')
        return [(s, UNIT)]
    I.event(s, 'push', v, args[1], c)
    if s.cons.bad:
        return []
    t = v[5] + (args[1],)
    I.write(s, a[1], a[2], ('seq', v[1], v[2], v[3], v[4], t, v[6]))
    return [(s, UNIT)]


@model('Vec::pop', 'VecDeque::pop_back')
def m_pop(I, st, c, args, rt):
    a, v = vec_at(I, st, args[0])
    if v is None or v[6]:
        I.unk('pop')
        s = st.copy()
        havoc_args(I, s, args[:1])
        return opt_unknown(I, s, rt)
    if v[5]:
        s = st.copy()
        I.event(s, 'pop', v, v[5][-1])
        I.write(s, a[1], a[2], ('seq', v[1], v[2], v[3], v[4], v[5][:-1], v[6]))
        return [(s, some(rt, v[5][-1]))]
    if v[3] is None:
        return [(st, none(rt))]
    out = []
    for s in st.assume(fge(addc(v[4], -1)), True):
        s = s.copy()
        x = I.elem(s, v, addc(v[4], -1))
        touch(I, s, v, addc(v[4], -1), x)
        I.event(s, 'pop', v, x)
        I.write(s, a[1], a[2], ('seq', v[1], v[2], v[3], addc(v[4], -1), (), ()))
        out.append((s, some(rt, x)))
    for s in st.assume(fge(addc(v[4], -1)), False):
        out.append((s, none(rt)))
    return out


@model('Vec::clear', 'String::clear')
def m_clear(I, st, c, args, rt):
    a = args[0]
    if a[0] != 'ref':
        return None
    s = st.copy()
    v = I.read(s, a[1], a[2])
    if c.path.startswith('alloc::string'):
        I.write(s, a[1], a[2], ('str', ('lit', '')))
    else:
        I.write(s, a[1], a[2], ('seq', ('v', I.sitekey()), v[2] if v[0] == 'seq' else None, None, ZERO, (), ()))
    return [(s, UNIT)]


@model('Vec::truncate', 'Vec::extend_from_slice', 'Vec::append', 'Extend::extend', 'Vec::insert', 'Vec::remove', 'Vec::drain', 'Vec::swap_remove',
       'Vec::retain', 'Vec::dedup', 'Vec::reverse', 'slice::reverse', 'Vec::resize', 'Vec::extend', 'VecDeque::pop_front', 'Vec::split_off', 'slice::swap', 'Vec::reserve',
       'slice::copy_from_slice', 'slice::fill', 'Vec::dedup_by_key', 'Vec::dedup_by')
def m_vec_mut(I, st, c, args, rt):
    s = st.copy()
    I.event(s, 'vecmut', c.name, args)
    if c.name == 'reserve':
        return [(s, UNIT)]
    a, v = vec_at(I, s, args[0])
    if v is not None:
        n = I.seqlen(s, v)
        ety = v[2]
        t = fresh('vec')
        full = I.strip(s, args[1]) if len(args) > 1 else None
        if c.name == 'drain' and full is not None and 'RangeFull' in str(getattr(c, 'args', '')) + str(full[1] if full[0] in ('agg', 'sym') else ''):
            its = to_iter(I, s, v)
            if its and len(its) == 1:
                s = its[0][0].copy()
                I.write(s, a[1], a[2], ('seq', ('v', I.sitekey()), ety, None, ZERO, (), ()))
                return [(s, its[0][1])]
        if c.name in ('extend_from_slice', 'extend', 'append'):
            o = args[1]
            its = to_iter(I, s, o)
            m = None
            if its and len(its) == 1 and its[0][1][0] == 'iter' and its[0][1][3] is not None:
                s = its[0][0].copy()
                m = sub(its[0][1][3], its[0][1][2])
            if m is not None and is_const(s.canon(m)) and s.canon(m)[0] <= 4:
                tail = v[5]
                ok_ = True
                st2 = s
                for k in range(s.canon(m)[0]):
                    r = I.gen_elem(st2, its[0][1][1], addc(its[0][1][2], k))
                    if len(r) != 1:
                        ok_ = False
                        break
                    st2, x = r[0]
                    if c.name == 'extend_from_slice' or (x[0] in ('ref', 'refv') and ety is not None and ety.k != 'ref'):
                        x = I.deref_val(st2, x)
                    st2 = st2.copy()
                    I.event(st2, 'push', v, x, c)
                    tail = tail + (x,)
                if ok_:
                    I.write(st2, a[1], a[2], ('seq', v[1], v[2], v[3], v[4], tail, v[6]))
                    return [(st2, UNIT)]
            n2 = add(n, m) if m is not None else var(atom(fresh('len'), 0, LA.MAX, True))
            if m is None:
                s.ge(sub(n2, n))
            new = ('seq', v[1], ety, t, n2, (), ())
        elif c.name in ('reverse', 'swap', 'copy_from_slice', 'fill'):
            new = ('seq', v[1], ety, t, n, (), ())
        elif c.name == 'remove':
            I.write(s, a[1], a[2], ('seq', v[1], ety, t, addc(n, -1), (), ()))
            return guard(I, s, fge(addc(sub(n, I.as_lin(s, args[1])), -1)), 'Vec::remove', lambda x: I.opaque(rt, 'removed'))
        elif c.name == 'insert':
            new = ('seq', v[1], ety, t, addc(n, 1), (), ())
        elif c.name == 'truncate':
            k = I.as_lin(s, args[1])
            out = []
            for x in s.assume(fge(sub(n, k)), True):
                x = x.copy()
                I.write(x, a[1], a[2], ('seq', v[1], ety, t, k, (), ()) if not (is_const(k) and k[0] == 0) else ('seq', v[1], ety, None, ZERO, (), ()))
                out.append((x, UNIT))
            return out + [(x, UNIT) for x in s.assume(fge(sub(n, k)), False)]
        else:
            n2 = var(atom(fresh('len'), 0, LA.MAX, True))
            new = ('seq', v[1], ety, t, n2, (), ())
        I.write(s, a[1], a[2], new)
    I.unk('Vec::' + c.name)
    return [(s, I.opaque(rt, c.name) if rt is not None and rt.name != '()' else UNIT)]


def guard(I, st, f, what, val):
    """value when f holds, panic otherwise"""
    out = []
    for s in st.assume(f, True):
        out.append((s, val(s)))
    for s in st.assume(f, False):
        fn, line = I.where_ws()
        I.panic(s, fn, what, line, (f, True))
    return out


@model('slice::sort', 'slice::sort_unstable', 'ParallelSliceMut::par_sort', 'ParallelSliceMut::par_sort_unstable', 'slice::sort_by_key', 'slice::sort_by',
       'slice::sort_unstable_by_key', 'slice::sort_unstable_by', 'slice::sort_by_cached_key', 'ParallelSliceMut::par_sort_by_key', 'ParallelSliceMut::par_sort_by', 'ParallelSliceMut::par_sort_unstable_by_key')
def m_sort(I, st, c, args, rt):
    s = st.copy()
    a, v = vec_at(I, s, args[0])
    natural = not c.name.endswith(('_by', '_key'))
    t = ('sorted' if natural else 'sortedby', v[1] if v else None, fresh('s')[2])
    I.event(s, 'sort', v, c)
    if v is not None:
        I.write(s, a[1], a[2], ('seq', v[1], v[2], t, I.seqlen(s, v), (), ()))
    return [(s, UNIT)]


@model('slice::len', 'Vec::len', 'str::len', 'String::len', 'VecDeque::len', 'HashMap::len')
def m_len(I, st, c, args, rt):
    v = I.strip(st, args[0])
    if v[0] == 'emap':
        return [(st, ('int', const(len(v[3]))))]
    n = I.seqlen(st, v)
    if n is None and v[0] == 'sym' and v[2] is not None and is_str_ty(v[2]):
        n = strlen(I, st, v[1])
    if n is None:
        return [(st, mk_int(fresh('len'), I.p.types['usize']))]
    return [(st, ('int', n))]


@model('slice::is_empty', 'Vec::is_empty', 'str::is_empty', 'String::is_empty', 'VecDeque::is_empty', 'HashMap::is_empty')
def m_is_empty(I, st, c, args, rt):
    r = m_len(I, st, c, args, rt)
    return [(s, ('bool', feq(v[1]))) for s, v in r]


@model('Deref::deref', 'DerefMut::deref_mut', 'AsRef::as_ref', 'Borrow::borrow', 'Vec::as_slice', 'String::as_str', 'String::as_bytes', 'str::as_bytes',
       'Vec::as_mut_slice', 'AsMut::as_mut', 'Path::as_path', 'PathBuf::as_path', 'Box::as_ref', 'BorrowMut::borrow_mut', 'slice::as_ref', 'Cow::as_ref', 'String::as_mut_str', 'Path::as_os_str',
       'Path::new', 'array::as_slice', 'convert::identity')
def m_deref(I, st, c, args, rt):
    a = args[0]
    if a[0] in ('ref', 'refv'):
        u = I.deref_val(st, a)
        if u[0] in ('ref', 'refv') and not (rt is not None and rt.k == 'ref' and rt.r['inner'].k == 'ref'):
            return m_deref(I, st, c, [u], rt)
        if u[0] == 'box':
            return [(st, ('refv', u[1]))] if c.name in ('deref', 'as_ref', 'borrow') else [(st, ('ref', a[1], a[2] + (('b',),)) if a[0] == 'ref' else ('refv', u[1]))]
        if u[0] == 'sym' and u[2] is not None and u[2].k == 'adt' and u[2].r['path'] in ('lazy_static::lazy::Lazy',):
            return [(st, ('refv', I.opaque(rt.r['inner'] if rt is not None and rt.k == 'ref' else None, 'lazy')))]
    return [(st, a)]


@model('slice::first', 'slice::last', 'Vec::first', 'Vec::last', 'slice::first_mut', 'slice::last_mut')
def m_first(I, st, c, args, rt):
    v = I.strip(st, args[0])
    n = I.seqlen(st, v)
    if n is None:
        I.unk('first/last')
        return opt_unknown(I, st, rt)
    out = []
    for s in st.assume(fge(addc(n, -1)), True):
        ix = ZERO if c.name.startswith('first') else addc(n, -1)
        s = s.copy()
        if c.name.endswith('_mut') and args[0][0] == 'ref':
            a, w = vec_at(I, s, args[0])
            out.append((s, some(rt, ('ref', a[1], a[2] + (('e', s.canon(ix)),)))))
            continue
        x = I.elem(s, v, ix)
        touch(I, s, v, ix, x)
        if not s.cons.bad:
            out.append((s, some(rt, ('refv', x))))
    for s in st.assume(fge(addc(n, -1)), False):
        out.append((s, none(rt)))
    return out


@model('slice::split_first', 'slice::split_last')
def m_split_first(I, st, c, args, rt):
    v = I.strip(st, args[0])
    n = I.seqlen(st, v)
    if n is None:
        return None
    out = []
    first = c.name == 'split_first'
    for s in st.assume(fge(addc(n, -1)), True):
        x = I.elem(s, v, ZERO if first else addc(n, -1))
        rest = I.mk_view(s, v, ONE if first else ZERO, n if first else addc(n, -1))
        out.append((s, some(rt, ('agg', None, 0, (('refv', x), ('refv', rest))))))
    for s in st.assume(fge(addc(n, -1)), False):
        out.append((s, none(rt)))
    return out


@model('slice::get', 'slice::get_mut', 'Vec::get', 'str::get')
def m_get(I, st, c, args, rt):
    if c.name == 'get' and args[1][0] == 'agg':
        b = range_bounds(I, st, args[1], I.seqlen(st, I.strip(st, args[0])))
        v = I.strip(st, args[0])
        if b is None or I.seqlen(st, v) is None or v[0] == 'str':
            I.unk('get range')
            return opt_unknown(I, st, rt)
        lo, hi = b
        n = I.seqlen(st, v)
        f = fand(fge(sub(hi, lo)), fge(sub(n, hi)))
        return [(s, some(rt, ('refv', I.mk_view(s, v, lo, hi)))) for s in st.assume(f, True)] + [(s, none(rt)) for s in st.assume(f, False)]
    v = I.strip(st, args[0])
    n = I.seqlen(st, v)
    if n is None or args[1][0] != 'int':
        I.unk('get')
        return opt_unknown(I, st, rt)
    ix = args[1][1]
    out = []
    f = fge(addc(sub(n, ix), -1))
    for s in st.assume(f, True):
        s = s.copy()
        if c.name == 'get_mut' and args[0][0] == 'ref':
            a, w = vec_at(I, s, args[0])
            out.append((s, some(rt, ('ref', a[1], a[2] + (('e', s.canon(ix)),)))))
            continue
        x = I.elem(s, v, ix)
        touch(I, s, v, ix, x)
        if not s.cons.bad:
            out.append((s, some(rt, ('refv', x))))
    for s in st.assume(f, False):
        out.append((s, none(rt)))
    return out


def range_bounds(I, st, r, n):
    """(lo, hi) of a range argument over a sequence of n items"""
    r = I.strip(st, r)
    ty = r[1] if r[0] == 'agg' else (r[2] if r[0] == 'sym' else None)
    if ty is None or ty.k != 'adt':
        return None
    p = ty.r['path'].rsplit('::', 1)[-1]
    f = lambda i: I.as_lin(st, I.field(st, r, i))
    if p == 'Range':
        return f(0), f(1)
    if p == 'RangeFrom':
        return f(0), n
    if p == 'RangeTo':
        return ZERO, f(0)
    if p == 'RangeFull':
        return ZERO, n
    if p == 'RangeInclusive':
        return f(0), addc(f(1), 1)
    if p == 'RangeToInclusive':
        return ZERO, addc(f(0), 1)
    return None


@model('Index::index', 'IndexMut::index_mut', 'slice::get_unchecked')
def m_index(I, st, c, args, rt):
    a, ix = args
    u = I.strip(st, a)
    if u[0] == 'str' or (u[0] == 'sym' and u[2] is not None and is_str_ty(u[2])):
        return str_index(I, st, u, ix, rt)
    n = I.seqlen(st, u)
    if n is None:
        if u[0] == 'map' or (u[0] == 'sym' and u[2] is not None and u[2].k == 'adt' and 'HashMap' in u[2].r['path']):
            fn, line = I.where_ws()
            I.unk('HashMap index')
            return [(st, I.opaque(rt, 'index'))]
        I.unk('index of ' + u[0])
        return [(st, I.opaque(rt, 'index') if rt is not None else ('sym', fresh('index'), None))]
    mut = c.name == 'index_mut'
    if ix[0] == 'int':
        f = fge(addc(sub(n, ix[1]), -1))

        def val(s):
            if mut:
                b, w = vec_at(I, s, a)
                if b is not None:
                    return ('ref', b[1], b[2] + (('e', s.canon(ix[1])),))
            x = I.elem(s, u, ix[1])
            touch(I, s, u, ix[1], x)
            return ('refv', x)
        return guard(I, st.copy(), f, 'index', val)
    b = range_bounds(I, st, ix, n)
    if b is None:
        I.unk('index range')
        return [(st, I.opaque(rt, 'index'))]
    lo, hi = b
    f = fand(fge(sub(hi, lo)), fge(sub(n, hi)))
    return guard(I, st.copy(), f, 'slice', lambda s: ('refv', I.mk_view(s, u, lo, hi)) if not mut else ('ref', a[1], a[2] + (('sl', lo, hi),)) if a[0] == 'ref' else ('refv', I.mk_view(s, u, lo, hi)))


@model('slice::split_at')
def m_split_at(I, st, c, args, rt):
    u = I.strip(st, args[0])
    n = I.seqlen(st, u)
    if n is None:
        return None
    k = I.as_lin(st, args[1])
    return guard(I, st, fge(sub(n, k)), 'split_at', lambda s: ('agg', rt, 0, (('refv', I.mk_view(s, u, ZERO, k)), ('refv', I.mk_view(s, u, k, n)))))


@model('slice::starts_with', 'slice::ends_with')
def m_slice_starts(I, st, c, args, rt):
    u, w = I.strip(st, args[0]), I.strip(st, args[1])
    n, m = I.seqlen(st, u), I.seqlen(st, w)
    if n is None or m is None:
        return [(st, ('bool', ('b', fresh(c.name))))]
    iu, iw = I.seqid(u), I.seqid(w)
    if iu is None or iw is None:
        return [(st, ('bool', ('b', fresh(c.name))))]
    a0 = iu[1] if c.name == 'starts_with' else add(iu[1], sub(n, m))
    return [(st, ('bool', fand(fge(sub(n, m)), ('run', iu[0], a0, iw[0], iw[1], m))))]


@model('slice::to_vec', 'ToOwned::to_owned', 'Clone::clone', 'Vec::into_boxed_slice', 'slice::into_vec', 'ToString::to_string', 'Path::to_path_buf', 'Into::into', 'From::from',
       'Box::from', 'Vec::from', 'String::from', 'str::to_owned', 'String::into_boxed_str', 'Box::into_vec', 'PathBuf::from', 'Path::to_owned', 'Box::new', 'slice::into_vec', 'Rc::new', 'Arc::new',
       'String::into_bytes', 'str::to_string', 'Cow::into_owned', 'slice::concat', 'PathBuf::into_boxed_path', 'OsStr::to_os_string', 'slice::to_owned', 'Iterator::into_iter', 'Box::into_iter')
def m_convert(I, st, c, args, rt):
    if rt is not None and rt.k == 'adt' and rt.r['path'] == 'std::process::ExitCode':
        return [(st, ('sym', ('exitcode', st.canon(I.as_lin(st, args[0]))), rt))]
    a = args[0]
    u = I.strip(st, a) if c.name not in ('new',) else a
    box = rt is not None and rt.k == 'adt' and rt.r['path'] == 'alloc::boxed::Box'
    if c.name in ('from', 'into') and rt is not None and u[0] == 'int' and rt.k in ('int',):
        return [(st, u)]
    if c.name in ('from', 'into') and a[0] not in ('ref', 'refv') and a[0] == u[0] and rt is not None and u[0] == 'sym' and u[2] is not None and u[2] is not rt and not is_str_ty(rt) and not is_seq_ty(rt) and not box:
        return [(st, ('sym', ('conv', u[1]), rt))]
    if c.name == 'concat':
        return [(st, I.opaque(rt, 'concat'))]
    if rt is not None and is_str_ty(rt):
        t = content(I, st, u)
        if t is None and u[0] == 'seq':
            t = None
        if u[0] in ('sym', 'str') and t is not None:
            ok_ = u[0] == 'str' or u[2] is None or is_str_ty(u[2])
            if ok_:
                return [(st, ('str', t))]
            return [(st, ('str', ('display', t)))]
        return [(st, ('str', fresh('text')))]
    if box:
        if u[0] == 'box':
            return [(st, u)]
        return [(st, ('box', u))]
    if u[0] == 'box' and rt is not None and is_seq_ty(rt):
        u = u[1]
    if rt is not None and u[0] == 'sym' and u[2] is not None and u[2] is not rt and c.name in ('from', 'into', 'to_string'):
        if is_seq_ty(rt) and is_seq_ty(u[2]):
            return [(st, ('isym', u[1], elem_ty(u[2])))]
        return [(st, ('sym', ('conv', u[1]), rt))]
    return [(st, u)]


@model('Box::new_uninit', 'Box::<T>::new_uninit')
def m_new_uninit(I, st, c, args, rt):
    return [(st, ('box', ('sym', fresh('uninit'), arg_ty(rt))))]


@model('boxed::box_assume_init_into_vec_unsafe', 'Box::assume_init')
def m_assume_init(I, st, c, args, rt):
    v = I.strip(st, args[0])
    # the wrappers a vec! literal is built in: the written field is the last one
    for _ in range(6):
        if v[0] == 'agg' and v[3]:
            v = v[3][-1]
        else:
            break
    ety = arg_ty(rt)
    if v[0] == 'seq':
        return [(st, ('seq', ('v', I.sitekey()), ety, None, ZERO, v[5], ())) if v[3] is None else (st, v)]
    I.unk('vec! contents')
    return [(st, I.opaque(rt, 'vec'))]


@model('vec::from_elem')
def m_from_elem(I, st, c, args, rt):
    return [(st, ('seq', ('v', I.sitekey()), arg_ty(rt), ('gen', ('once', args[0]), ZERO), I.as_lin(st, args[1]), (), ()))]


# ------------------------------------------------------------------ comparison
@model('PartialEq::eq', 'PartialEq::ne', 'cmp::eq', 'cmp::ne')
def m_eq(I, st, c, args, rt):
    f = vals_equal(I, st, args[0], args[1])
    return [(st, ('bool', f if c.name == 'eq' else fnot(f)))]


@model('Ord::min', 'Ord::max', 'cmp::min', 'cmp::max', 'intrinsics::integer_min', 'intrinsics::integer_max', 'num::min', 'num::max')
def m_min(I, st, c, args, rt):
    a, b = args[0], args[1]
    if a[0] != 'int' or b[0] != 'int':
        I.unk('min/max of non-integers')
        return [(st, I.opaque(rt, c.name))]
    f = fge(sub(b[1], a[1]))
    mn = c.name.endswith('min')
    return [(s, a if mn else b) for s in st.assume(f, True)] + [(s, b if mn else a) for s in st.assume(f, False)]


@model('Ord::clamp')
def m_clamp(I, st, c, args, rt):
    x, lo, hi = args
    if any(v[0] != 'int' for v in args):
        return None
    out = []
    for s in st.assume(fge(sub(lo[1], addc(x[1], 1))), True):
        out.append((s, lo))
    for s in st.assume(fge(sub(lo[1], addc(x[1], 1))), False):
        for s2 in s.assume(fge(sub(x[1], addc(hi[1], 1))), True):
            out.append((s2, hi))
        for s2 in s.assume(fge(sub(x[1], addc(hi[1], 1))), False):
            out.append((s2, x))
    return out


@model('Ord::cmp', 'PartialOrd::partial_cmp')
def m_cmp(I, st, c, args, rt):
    a, b = I.strip(st, args[0]), I.strip(st, args[1])
    if a[0] != 'int' or b[0] != 'int':
        return [(st, I.opaque(rt, 'cmp'))]
    d = sub(a[1], b[1])
    oty = rt
    wrapf = lambda v: v
    if c.name == 'partial_cmp':
        oty = arg_ty(rt)
        wrapf = lambda v: some(rt, v)
    out = []
    for s in st.assume(fge(addc(d, -1)), True):
        out.append((s, wrapf(('agg', oty, 2, ()))))
    for s in st.assume(fge(addc(d, -1)), False):
        for s2 in s.assume(feq(d), True):
            out.append((s2, wrapf(('agg', oty, 1, ()))))
        for s2 in s.assume(feq(d), False):
            out.append((s2, wrapf(('agg', oty, 0, ()))))
    return out


@model('PartialOrd::lt', 'PartialOrd::le', 'PartialOrd::gt', 'PartialOrd::ge')
def m_lt(I, st, c, args, rt):
    a, b = I.strip(st, args[0]), I.strip(st, args[1])
    if a[0] != 'int' or b[0] != 'int':
        return [(st, ('bool', ('b', fresh(c.name))))]
    op = {'lt': 'Lt', 'le': 'Le', 'gt': 'Gt', 'ge': 'Ge'}[c.name]
    return I.binop(st, op, a, b, I.p.types['usize'])


@model('Ordering::is_lt', 'Ordering::is_le', 'Ordering::is_gt', 'Ordering::is_ge', 'Ordering::is_eq', 'Ordering::is_ne')
def m_ord_is(I, st, c, args, rt):
    r = variant_split(I, st, args[0])
    if r is None:
        return None
    ok_ = {'is_lt': (0,), 'is_le': (0, 1), 'is_gt': (2,), 'is_ge': (1, 2), 'is_eq': (1,), 'is_ne': (0, 2)}[c.name]
    return [(s, ('bool', TRUE if a[2] in ok_ else FALSE)) for s, a in r]


# ------------------------------------------------------------------ integers
def arith(op):
    def f(I, st, c, args, rt):
        a, b = I.strip(st, args[0]), I.strip(st, args[1])
        ty = rt if rt is not None and rt.k == 'int' else I.p.types['usize']
        if op == 'Add' and rt is not None and is_str_ty(rt):
            x, y = content(I, st, a), content(I, st, b)
            if x is not None and y is not None:
                return [(st, ('str', cat(x, y)))]
        if a[0] != 'int' or b[0] != 'int':
            return [(st, I.opaque(rt, 'arith'))]
        r = I.binop(st, op + 'WithOverflow' if op in ('Add', 'Sub', 'Mul') else op, a, b, ty)
        out = []
        for s, v in r:
            if v[0] == 'agg':
                fn, line = I.where_ws()
                for s2 in s.assume(v[3][1][1], False):
                    out.append((s2, v[3][0]))
                for s2 in s.assume(v[3][1][1], True):
                    I.panic(s2, fn, 'overflow:' + op, line, (v[3][1][1], False))
            else:
                out.append((s, v))
        return out
    return f


for _o in ('Add', 'Sub', 'Mul', 'Div', 'Rem'):
    M[f'{_o}::{_o.lower()}'] = arith(_o)


def assign_op(op):
    def f(I, st, c, args, rt):
        a = args[0]
        if a[0] != 'ref':
            return None
        cur = I.read(st, a[1], a[2])
        out = []
        for s, v in arith(op)(I, st, c, [cur, args[1]], None):
            s = s.copy()
            I.write(s, a[1], a[2], v)
            out.append((s, UNIT))
        return out
    return f


for _o in ('Add', 'Sub', 'Mul'):
    M[f'{_o}Assign::{_o.lower()}_assign'] = assign_op(_o)


def int_self_ty(I, c, rt):
    for a in c.args:
        if a.k == 'int':
            return a
    p = c.path
    for n in ('usize', 'isize', 'u8', 'u16', 'u32', 'u64', 'i8', 'i16', 'i32', 'i64'):
        if f'impl {n}>' in p:
            return I.p.types.get(n)
    if rt is not None and rt.k == 'int':
        return rt
    if rt is not None and arg_ty(rt) is not None and arg_ty(rt).k == 'int':
        return arg_ty(rt)
    return I.p.types['usize']


@model('num::checked_add', 'num::checked_sub', 'num::checked_add_signed', 'num::checked_sub_unsigned', 'num::checked_mul', 'num::saturating_sub', 'num::saturating_add', 'num::saturating_add_signed',
       'num::wrapping_add', 'num::wrapping_sub', 'num::overflowing_sub', 'num::overflowing_add', 'num::checked_add_unsigned', 'num::saturating_mul', 'num::checked_sub_signed', 'num::saturating_sub_unsigned',
       'usize::checked_add', 'usize::checked_sub', 'usize::saturating_sub', 'usize::saturating_add', 'usize::checked_add_signed')
def m_checked(I, st, c, args, rt):
    if any(a[0] != 'int' for a in args[:2]):
        return [(st, I.opaque(rt, c.name))]
    kind, op = c.name.split('_', 1)
    ty = int_self_ty(I, c, rt)
    a, b = args[0][1], args[1][1]
    if op.startswith('mul'):
        ca, cb = st.canon(a), st.canon(b)
        if is_const(ca):
            r = LA.scale(b, ca[0])
        elif is_const(cb):
            r = LA.scale(a, cb[0])
        else:
            return [(st, I.opaque(rt, c.name))]
    else:
        r = add(a, b) if op.startswith('add') else sub(a, b)
    lo, hi = IP.int_range(ty)
    if not ty.r['signed']:
        inr = fge(r)
        if ty.r['bits'] < 64:
            inr = fand(inr, fge(addc(neg(r), hi)))
    elif ty.r['bits'] < 64:
        inr = fand(fge(addc(r, -lo)), fge(addc(neg(r), hi)))
    else:
        inr = TRUE
    out = []
    for s in st.assume(inr, True):
        v = ('int', r)
        out.append((s, some(rt, v) if kind == 'checked' else ('agg', rt, 0, (v, ('bool', FALSE))) if kind == 'overflowing' else v))
    for s in st.assume(inr, False):
        if kind == 'checked':
            out.append((s, none(rt)))
        elif kind == 'saturating':
            if ty.r['bits'] >= 64 or not ty.r['signed'] and op.startswith('sub'):
                out.append((s, ('int', ZERO)))
            else:
                for s2 in s.assume(fge(addc(r, -lo)), False):
                    out.append((s2, ('int', const(lo))))
                for s2 in s.assume(fge(addc(r, -lo)), True):
                    out.append((s2, ('int', const(hi))))
        elif kind == 'overflowing':
            out.append((s, ('agg', rt, 0, (I.opaque(ty, 'wrap'), ('bool', TRUE)))))
        else:
            if ty.r['bits'] >= 64:
                out.append((s, ('int', addc(r, 1 << 64))))
            else:
                out.append((s, mk_int(('trunc', r, ty.r['bits']), ty)))
    return out


@model('num::is_negative', 'num::is_positive')
def m_is_neg(I, st, c, args, rt):
    l = I.as_lin(st, args[0])
    return [(st, ('bool', fge(addc(neg(l), -1)) if c.name == 'is_negative' else fge(addc(l, -1))))]


@model('num::abs', 'num::unsigned_abs')
def m_abs(I, st, c, args, rt):
    l = I.as_lin(st, args[0])
    return [(s, ('int', l)) for s in st.assume(fge(l), True)] + [(s, ('int', neg(l))) for s in st.assume(fge(l), False)]


@model('num::abs_diff')
def m_abs_diff(I, st, c, args, rt):
    l = sub(I.as_lin(st, args[0]), I.as_lin(st, args[1]))
    return [(s, ('int', l)) for s in st.assume(fge(l), True)] + [(s, ('int', neg(l))) for s in st.assume(fge(l), False)]


@model('TryFrom::try_from', 'TryInto::try_into')
def m_try_from(I, st, c, args, rt):
    t = arg_ty(rt)
    v = args[0]
    if t is None or t.k != 'int' or v[0] != 'int':
        return None
    lo, hi = (0, None) if not t.r['signed'] else (None, None)
    if t.r['bits'] < 64:
        lo, hi = IP.int_range(t)
    f = TRUE
    if lo is not None:
        f = fand(f, fge(addc(v[1], -lo)))
    if hi is not None:
        f = fand(f, fge(addc(neg(v[1]), hi)))
    return [(s, ok(rt, v)) for s in st.assume(f, True)] + [(s, err(rt, I.opaque(arg_ty(rt, 1), 'tryfrom'))) for s in st.assume(f, False)]


@model('intrinsics::cold_path', 'hint::black_box', 'hint::spin_loop', 'mem::forget', 'mem::drop')
def m_unit(I, st, c, args, rt):
    if c.name == 'drop' and args:
        s = st.copy()
        dropped(I, s, args[0], c.args[0] if c.args else None)
        return [(s, UNIT)]
    if c.name == 'forget' and args:
        s = st.copy()
        I.event(s, 'forget', args[0], c.args[0] if c.args else None)
        return [(s, UNIT)]
    if c.name == 'black_box':
        return [(st, args[0])]
    return [(st, UNIT)]


# ------------------------------------------------------------------ maps (summarised entry)
def new_map(I, ty):
    if I.exact_maps and is_int_map(ty):
        return ('emap', ('m', I.sitekey()), ty, ())
    return ('map', ('m', I.sitekey()), ty, None)


@model('HashMap::new', 'HashMap::with_capacity', 'BTreeMap::new')
def m_map_new(I, st, c, args, rt):
    return [(st, new_map(I, rt))]


def is_int_map(ty):
    return ty is not None and ty.k == 'adt' and len(ty.r['args']) >= 2 and ty.r['args'][0].k == 'int' and ty.r['args'][1].k == 'int'


@model('HashMap::insert', 'BTreeMap::insert')
def m_map_insert(I, st, c, args, rt):
    a = args[0]
    s = st.copy()
    v = I.read(s, a[1], a[2]) if a[0] == 'ref' else None
    I.event(s, 'insert', v, args[1], args[2])
    if v is not None and v[0] == 'emap' and args[1][0] == 'int' and args[2][0] == 'int':
        out = []
        for s1, i in emap_find(s, v, args[1][1]):
            s1 = s1.copy()
            e = v[3] + ((args[1][1], args[2][1]),) if i is None else v[3][:i] + ((args[1][1], args[2][1]),) + v[3][i + 1:]
            I.write(s1, a[1], a[2], v[:3] + (e,))
            out.append((s1, none(rt) if i is None else some(rt, ('int', v[3][i][1]))))
        return out
    old = I.opaque(rt, 'old') if rt is not None else ('sym', fresh('old'), None)
    if v is None or v[0] != 'map' or not is_int_map(v[2]) or args[1][0] != 'int' or args[2][0] != 'int':
        return [(s, old)]
    k, x = args[1][1], args[2][1]
    n = I.newentry()
    ka, va = atom(('w', 'ent', n, 'k'), None, None, True), atom(('w', 'ent', n, 'v'), None, None, True)
    s1 = s.copy()
    s1.cons = s1.cons
    s1.eq(sub(var(ka), k))
    s1.eq(sub(var(va), x))
    I.write(s1, a[1], a[2], ('map', v[1], v[2], (var(ka), var(va))))
    if v[3] is None:
        # keep the entry's atoms independent of later renaming of k and x
        return [(s1, old)]
    from .join import join2
    w = s.wid
    j = join2(I, s1, s, ('ins', n))
    j.wid = w
    return [(j, old)]


def emap_find(st, v, key):
    """(state, index of the entry with this key or None) for a map all entries of which are known"""
    out, rest = [], [st]
    for i, (k, _) in enumerate(v[3]):
        nxt = []
        for s in rest:
            f = feq(sub(k, key))
            out += [(x, i) for x in s.assume(f, True) if not x.cons.bad]
            nxt += [x for x in s.assume(f, False) if not x.cons.bad]
        rest = nxt
    return out + [(s, None) for s in rest]


@model('HashMap::clear', 'BTreeMap::clear')
def m_map_clear(I, st, c, args, rt):
    v = I.read(st, args[0][1], args[0][2]) if args[0][0] == 'ref' else None
    if v is None or v[0] != 'emap':
        return None
    s = st.copy()
    I.write(s, args[0][1], args[0][2], v[:3] + ((),))
    return [(s, UNIT)]


@model('HashMap::get', 'HashMap::contains_key', 'BTreeMap::get', 'HashMap::get_mut', 'HashMap::entry', 'HashMap::get_or_insert_with', 'HashMap::remove')
def m_map_get(I, st, c, args, rt):
    v = I.strip(st, args[0])
    key = I.strip(st, args[1])
    if v[0] == 'emap' and key[0] == 'int' and c.name in ('get', 'contains_key', 'remove', 'get_mut'):
        out = []
        for s, i in emap_find(st, v, key[1]):
            s = s.copy()
            if c.name == 'contains_key':
                out.append((s, ('bool', FALSE if i is None else TRUE)))
            elif i is None:
                out.append((s, none(rt)))
            elif c.name == 'get':
                out.append((s, some(rt, ('refv', ('int', v[3][i][1])))))
            elif c.name == 'remove' and args[0][0] == 'ref':
                I.write(s, args[0][1], args[0][2], v[:3] + (v[3][:i] + v[3][i + 1:],))
                out.append((s, some(rt, ('int', v[3][i][1]))))
            else:
                I.unk('HashMap::' + c.name)
                out.append((s, I.opaque(rt, c.name)))
        return out
    if v[0] == 'map' and is_int_map(v[2]) and key[0] == 'int' and c.name in ('get', 'contains_key'):
        if v[3] is None:
            return [(st.copy(), none(rt) if c.name == 'get' else ('bool', FALSE))]
        out = [(st.copy(), none(rt) if c.name == 'get' else ('bool', FALSE))]
        s = expand(I, st, v[3], key[1])
        if s is not None:
            s, x = s
            out.append((s, some(rt, ('refv', ('int', x))) if c.name == 'get' else ('bool', TRUE)))
        return out
    kt = content(I, st, key)
    s = st.copy()
    I.event(s, 'mapget', v, key, c.name)
    if c.name in ('get', 'get_mut') and kt is not None:
        # the entry stored under this key
        m = v[1] if v[0] in ('map', 'sym') else None
        if m is not None:
            t = arg_ty(rt)
            e = ('ent', m, kt)
            x = mk_sym(e, t.r['inner']) if t is not None and t.k in ('ref', 'ptr') else ('sym', e, None)
            if v[0] == 'map' and v[3] is None and v[1][0] == 'm' and False:
                return [(s, none(rt))]
            if c.name == 'get_mut':
                loc = ('D', e, t.r['inner'] if t is not None and t.k in ('ref', 'ptr') else None)
                return [(s, none(rt)), (s.copy(), some(rt, ('ref', loc, ())))]
            return [(s, none(rt)), (s.copy(), some(rt, ('refv', x)))]
    if c.name in ('get', 'get_mut'):
        return opt_unknown(I, s, rt)
    I.unk('HashMap::' + c.name)
    return [(s, I.opaque(rt, c.name))]


def expand(I, st, ent, key):
    """copy of the summarised entry, constrained to have this key"""
    from .join import subst_lin, subst_term, lin_atoms
    s = st.copy()
    n = I.newentry()
    ids = set()
    for l in ent:
        l = s.canon(l)
        for i, _ in l[1]:
            ids.add(i)
    # only the atoms that are private to the entry may be renamed
    priv = set()
    for l in ent:
        if len(l[1]) == 1:
            priv.add(l[1][0][0])
    th = {}
    for q, i in enumerate(sorted(priv)):
        th[i] = var(atom(('w', 'exp', n, q), None, None, True))
    kl = s.canon(ent[0])
    if len(kl[1]) == 1 and kl[1][0][1] == 1:
        # the key is the one asked for
        th[kl[1][0][0]] = addc(s.canon(key), -kl[0])
    add_ge, add_eq, facts = [], [], []
    for i, e in s.cons.eq.items():
        l = sub(var(i), e)
        if any(j in th for j, _ in l[1]):
            add_eq.append(subst_lin(l, th, {}))
    for g in s.cons.ge:
        if any(j in th for j, _ in g[1]):
            add_ge.append(subst_lin(g, th, {}))
    for f in s.facts:
        g = subst_term(f, th, {})
        if g != f:
            facts.append(g)
    for l in add_eq:
        if not s.eq(l):
            return None
    for l in add_ge:
        if not s.ge(l):
            return None
    k, x = LA.subst(s.canon(ent[0]), th), LA.subst(s.canon(ent[1]), th)
    if not s.eq(sub(k, key)):
        return None
    if facts:
        s.facts = s.facts | frozenset(facts)
    return s, s.canon(x)


# ------------------------------------------------------------------ text
@model('String::new', 'String::with_capacity')
def m_string_new(I, st, c, args, rt):
    return [(st, ('str', ('lit', '')))]


def lit_of(I, st, v):
    v = I.strip(st, v)
    if v[0] == 'str' and v[1][0] == 'lit':
        return v[1][1]
    if v[0] == 'int' and is_const(st.canon(v[1])):
        return chr(st.canon(v[1])[0])
    return None


def first_char(t):
    return var(atom(('first', t), -1, 0x10ffff))


@model('str::starts_with', 'String::starts_with')
def m_starts_with(I, st, c, args, rt):
    t = content(I, st, args[0])
    p = lit_of(I, st, args[1])
    if t is None or p is None:
        return [(st, ('bool', ('b', fresh('starts'))))]
    if t[0] == 'lit':
        return [(st, ('bool', TRUE if t[1].startswith(p) else FALSE))]
    if len(p) == 0:
        return [(st, ('bool', TRUE))]
    f = feq(addc(first_char(t), -ord(p[0])))
    if len(p) > 1:
        f = fand(f, ('b', ('starts', t, p)))
    return [(st, ('bool', f))]


@model('str::ends_with', 'String::ends_with')
def m_ends_with(I, st, c, args, rt):
    t = content(I, st, args[0])
    p = lit_of(I, st, args[1])
    if t is None or p is None:
        return [(st, ('bool', ('b', fresh('ends'))))]
    if t[0] == 'lit':
        return [(st, ('bool', TRUE if t[1].endswith(p) else FALSE))]
    return [(st, ('bool', ends(t, p)))]


def ends(t, p):
    if t[0] == 'cat':
        return ends(t[2], p)
    if t[0] == 'lit':
        return TRUE if t[1].endswith(p) else FALSE
    return ('b', ('ends', t, p))


@model('str::strip_prefix', 'str::strip_suffix')
def m_strip(I, st, c, args, rt):
    t = content(I, st, args[0])
    p = lit_of(I, st, args[1])
    if t is None or p is None:
        return opt_unknown(I, st, rt)
    pre = c.name == 'strip_prefix'
    r = (m_starts_with if pre else m_ends_with)(I, st, c, args, None)
    f = r[0][1][1]
    if pre:
        rest = ('lit', t[1][len(p):]) if t[0] == 'lit' else ('sub', t, const(len(p.encode())))
    else:
        rest = ('lit', t[1][:len(t[1]) - len(p)]) if t[0] == 'lit' else ('chop', t, p)
    return [(s, some(rt, ('refv', ('str', rest)))) for s in st.assume(f, True)] + [(s, none(rt)) for s in st.assume(f, False)]


@model('str::trim_end', 'str::trim', 'str::trim_start', 'str::trim_end_matches', 'str::trim_start_matches', 'str::trim_matches', 'str::trim_right', 'str::to_lowercase', 'str::to_uppercase')
def m_trim(I, st, c, args, rt):
    t = content(I, st, args[0])
    if t is None:
        return [(st, ('refv', ('str', fresh('trim'))))]
    p = lit_of(I, st, args[1]) if len(args) > 1 else None
    r = ('str', ('trim', c.name, p, t))
    return [(st, r if rt is not None and rt.k == 'adt' else ('refv', r))]


@model('str::replace', 'str::replacen', 'str::to_lowercase', 'str::to_uppercase', 'str::to_ascii_lowercase', 'str::to_ascii_uppercase', 'str::repeat')
def m_derived(I, st, c, args, rt):
    t = content(I, st, args[0])
    if t is None:
        return [(st, ('str', fresh('derived')))]
    return [(st, ('str', ('derived', c.name) + tuple(lit_of(I, st, a) or fresh('arg') for a in args[1:3]) + (t,)))]


def str_index(I, st, u, ix, rt):
    t = content(I, st, u)
    n = strlen(I, st, t)
    b = range_bounds(I, st, ix, n)
    if b is None:
        return [(st, ('refv', ('str', fresh('substr'))))]
    lo, hi = b
    full = st.ent_eq(sub(hi, n))
    r = ('str', ('sub', t, st.canon(lo)) if full else ('subr', t, st.canon(lo), st.canon(hi)))
    # in range and on a character boundary
    clo = st.canon(lo)
    if is_const(clo) and clo[0] == 0 and full:
        return [(st, ('refv', u))]
    if is_const(clo) and clo[0] == 1 and full and t[0] != 'lit':
        fc = first_char(t)
        good = fand(fge(fc), fge(addc(neg(fc), 127)))
        return guard(I, st, good, 'str-slice', lambda s: ('refv', r))
    if t[0] == 'lit' and full and is_const(clo) and clo[0] <= len(t[1]):
        return [(st, ('refv', ('str', ('lit', t[1][clo[0]:]))))]
    fn, line = I.where_ws()
    I.panic(st.copy(), fn, 'str-slice', line, (('b', ('u', 'charboundary')), True))
    return [(st, ('refv', r))]


@model('String::push_str', 'String::push', 'String::insert_str', 'String::insert', 'String::pop', 'String::truncate', 'String::remove')
def m_push_str(I, st, c, args, rt):
    a = args[0]
    if a[0] != 'ref':
        return None
    s = st.copy()
    t = content(I, s, I.read(s, a[1], a[2]))
    if c.name in ('push_str', 'push') and t is not None:
        p = lit_of(I, s, args[1])
        o = ('lit', p) if p is not None else content(I, s, args[1])
        if o is not None:
            I.write(s, a[1], a[2], ('str', cat(t, o)))
            return [(s, UNIT)]
    if c.name == 'pop' and t is not None:
        I.write(s, a[1], a[2], ('str', ('chop1', t)))
        return opt_unknown(I, s, rt)
    I.write(s, a[1], a[2], ('str', fresh('text')))
    I.unk('String::' + c.name)
    return [(s, I.opaque(rt, c.name) if rt is not None else UNIT)]


def cat(a, b):
    if a == ('lit', ''):
        return b
    if b == ('lit', ''):
        return a
    if a[0] == 'lit' and b[0] == 'lit':
        return ('lit', a[1] + b[1])
    if b[0] == 'cat':
        return cat(cat(a, b[1]), b[2])
    if a[0] == 'cat' and a[2][0] == 'lit' and b[0] == 'lit':
        return ('cat', a[1], ('lit', a[2][1] + b[1]))
    return ('cat', a, b)


@model('str::split_inclusive', 'str::lines', 'str::split', 'str::chars', 'str::bytes', 'str::char_indices', 'str::split_terminator', 'str::splitn', 'str::split_whitespace')
def m_split(I, st, c, args, rt):
    t = content(I, st, args[0])
    p = lit_of(I, st, args[1]) if len(args) > 1 else None
    src = ('split', c.name, p, t)
    ity = I.p.types.get('&str') if c.name not in ('chars', 'bytes', 'char_indices') else I.p.types.get('char' if c.name == 'chars' else 'u8')
    if c.name == 'char_indices':
        ity = None
    return [(st, ('iter', ('opq', src, ity), ZERO, var(atom(('len', src), 0, LA.MAX))))]


@model('FromStr::from_str', 'str::parse')
def m_parse(I, st, c, args, rt):
    t = content(I, st, args[0])
    a = arg_ty(rt)
    v = mk_sym(('parsed', t), a) if a is not None else ('sym', ('parsed', t), None)
    return [(st.copy(), ok(rt, v)), (st.copy(), err(rt, I.opaque(arg_ty(rt, 1), 'parse')))]


@model('char::is_ascii_digit', 'char::is_whitespace', 'char::is_numeric', 'char::is_alphabetic', 'str::contains', 'str::eq_ignore_ascii_case', 'str::is_char_boundary')
def m_char_is(I, st, c, args, rt):
    return [(st, ('bool', ('b', fresh(c.name))))]


@model('str::find', 'str::rfind', 'str::split_once', 'str::rsplit_once', 'str::char_at')
def m_find(I, st, c, args, rt):
    return opt_unknown(I, st, rt)


# formatting: a sequence of pieces
def decode_template(tpl):
    """pieces of a compiled format template: list of ('lit', str) | ('arg', n) ; None if not understood"""
    out = []
    i = 0
    n = 0
    while i < len(tpl):
        b = tpl[i]
        if b == 0:
            return out
        if b < 0x80:
            out.append(('lit', bytes(tpl[i + 1:i + 1 + b]).decode('utf8', 'replace')))
            i += 1 + b
        elif b == 0x80:
            l = tpl[i + 1] | tpl[i + 2] << 8
            out.append(('lit', bytes(tpl[i + 3:i + 3 + l]).decode('utf8', 'replace')))
            i += 3 + l
        elif b == 0xC0:
            out.append(('arg', n))
            n += 1
            i += 1
        else:
            return None
    return out


@model('Argument::new_display', 'Argument::new_debug', 'Argument::new_lower_hex')
def m_fmt_arg(I, st, c, args, rt):
    return [(st, ('fmtarg', c.name, I.strip(st, args[0])))]


@model('Arguments::new', 'Arguments::from_str', 'Arguments::new_const', 'Arguments::new_v1')
def m_fmt_args(I, st, c, args, rt):
    a0 = I.strip(st, args[0])
    pieces = None
    if a0[0] == 'str' and a0[1][0] == 'lit':
        if c.name == 'from_str':
            return [(st, ('fmt', (('lit', a0[1][1]),)))]
        raw = a0[1][1].encode('latin1') if len(a0[1]) > 2 else a0[1][1].encode('utf8')
        pieces = decode_template(raw)
    fa = I.strip(st, args[1]) if len(args) > 1 else ('seq', None, None, None, ZERO, (), ())
    if pieces is None or fa[0] != 'seq':
        return [(st, ('fmt', (('unknown', fresh('fmt')),)))]
    out = []
    for k, x in pieces:
        if k == 'lit':
            out.append(('lit', x))
        else:
            v = fa[5][x] if x < len(fa[5]) else ('sym', fresh('fmtarg'), None)
            if v[0] == 'fmtarg' and v[1] == 'new_display':
                t = content(I, st, v[2])
                if v[2][0] in ('str',) or (v[2][0] == 'sym' and v[2][2] is not None and is_str_ty(v[2][2])):
                    out.append(t)
                elif v[2][0] == 'int':
                    out.append(('dec', st.canon(v[2][1])))
                else:
                    out.append(('display', v[2]))
            else:
                out.append(('debug', v[2] if v[0] == 'fmtarg' else v))
    return [(st, ('fmt', tuple(out)))]


def fmt_content(f):
    t = ('lit', '')
    for p in f[1]:
        t = cat(t, p)
    return t


@model('fmt::format', 'fmt::format_inner')
def m_format(I, st, c, args, rt):
    f = args[0]
    if f[0] == 'fmt':
        return [(st, ('str', fmt_content(f)))]
    return [(st, ('str', fresh('fmt')))]


@model('Formatter::write_fmt', 'Formatter::write_str', 'Write::write_fmt', 'Write::write_str', 'Write::write_char')
def m_write_fmt(I, st, c, args, rt):
    f = args[1]
    if f[0] == 'fmt':
        t = fmt_content(f)
    else:
        t = content(I, st, f) or fresh('text')
    isfmt = rt is not None and 'fmt::Error' in rt.name
    if isfmt and args[0][0] == 'ref':
        u = I.strip(st, args[0])
        if u[0] == 'str':
            s = st.copy()
            I.write(s, args[0][1], args[0][2], ('str', cat(u[1], t)))
            return [(s, ok(rt, UNIT))]
    return write_event(I, st, args[0], ('str', t), rt, 'fmt' if isfmt else 'io')


def write_event(I, st, w, v, rt, kind='io'):
    s1, s2 = st.copy(), st.copy()
    I.event(s1, 'write', v, kind, w)
    out = []
    if not s1.cons.bad:
        out.append((s1, ok(rt, UNIT)))
    I.event(s2, 'fail', 'write', kind)
    out.append((s2, err(rt, I.opaque(arg_ty(rt, 1), 'ioerr'))))
    return out


# ------------------------------------------------------------------ io
@model('Write::write_all')
def m_write_all(I, st, c, args, rt):
    v = I.strip(st, args[1])
    return write_event(I, st, args[0], v, rt)


@model('Write::write')
def m_write(I, st, c, args, rt):
    s1, s2 = st.copy(), st.copy()
    I.event(s1, 'partial', I.strip(st, args[1]))
    I.event(s2, 'fail', 'write', 'io')
    return [(s1, ok(rt, mk_int(fresh('n'), I.p.types['usize']))), (s2, err(rt, I.opaque(arg_ty(rt, 1), 'ioerr')))]


@model('BufReader::new', 'BufWriter::new', 'BufReader::with_capacity', 'BufWriter::with_capacity', 'LineWriter::new')
def m_bufreader(I, st, c, args, rt):
    s = st.copy()
    I.event(s, 'wrapio', c.path, args[-1])
    return [(s, ('sym', ('bufio', norm(c.path), content(I, s, args[-1]) or fresh('rd')), rt))]


def fallible(I, st, op, args, rt, okval=None, extra=()):
    """an operation that may fail: success and failure are both explored and reported to the monitors"""
    s1, s2 = st.copy(), st.copy()
    I.event(s1, 'ok', op, args, *extra)
    I.event(s2, 'fail', op, args, *extra)
    a = arg_ty(rt)
    if okval is None:
        okval = UNIT if a is not None and a.k == 'tuple' and not a.r['elems'] else (I.opaque(a, op) if a is not None else ('sym', fresh(op), None))
    out = []
    if not s1.cons.bad:
        out.append((s1, ok(rt, okval)))
    if not s2.cons.bad:
        out.append((s2, err(rt, I.opaque(arg_ty(rt, 1), 'err'))))
    return out


@model('BufRead::read_line')
def m_read_line(I, st, c, args, rt):
    """reads up to and including the next terminator, appending; 0 means end of input"""
    out = []
    a = args[1]
    rd = content(I, st, args[0])
    s1 = st.copy()
    cur = content(I, s1, I.strip(s1, a))
    k = s1.ghost.get('_lines', 0)
    line = ('line', rd, I.newentry())
    I.event(s1, 'ok', 'read_line', args, line)
    if a[0] == 'ref':
        I.write(s1, a[1], a[2], ('str', cat(cur, line) if cur is not None else line))
    n = strlen(I, s1, line)
    if s1.ge(addc(n, -1)):
        out.append((s1, ok(rt, ('int', n))))
    s0 = st.copy()
    I.event(s0, 'ok', 'read_line_eof', args)
    out.append((s0, ok(rt, ('int', ZERO))))
    s2 = st.copy()
    I.event(s2, 'fail', 'read_line', args)
    out.append((s2, err(rt, I.opaque(arg_ty(rt, 1), 'ioerr'))))
    return out


@model('Read::read_to_end', 'Read::read_to_string')
def m_read_to_end(I, st, c, args, rt):
    s1, s2 = st.copy(), st.copy()
    rd = content(I, st, args[0])
    a = args[1]
    I.event(s1, 'ok', c.name, args)
    I.event(s2, 'fail', c.name, args)
    t = ('all', rd)
    if a[0] == 'ref':
        v = I.read(s1, a[1], a[2])
        if c.name == 'read_to_string':
            cur = content(I, s1, v)
            I.write(s1, a[1], a[2], ('str', cat(cur, t)))
        else:
            w = as_seq(I, s1, v)
            if w is not None and w[3] is None and not w[5]:
                I.write(s1, a[1], a[2], ('seq', w[1], w[2], t, var(atom(('len', t), 0, LA.MAX)), (), ()))
            else:
                I.write(s1, a[1], a[2], ('seq', ('v', 'appended'), None, ('appended', t), var(atom(fresh('len'), 0, LA.MAX, True)), (), ()))
    return [(s1, ok(rt, mk_int(('len', t), I.p.types['usize']))), (s2, err(rt, I.opaque(arg_ty(rt, 1), 'ioerr')))]


FALLIBLE = {
    'File::open': 'open', 'File::create': 'create', 'File::create_new': 'create_new', 'fs::rename': 'rename', 'fs::remove_file': 'remove_file',
    'fs::write': 'fs_write', 'fs::copy': 'copy', 'fs::read': 'read', 'fs::read_to_string': 'read_to_string',
    'fs::remove_dir': 'remove_dir', 'fs::remove_dir_all': 'remove_dir_all', 'fs::create_dir': 'create_dir', 'fs::create_dir_all': 'create_dir_all',
    'fs::metadata': 'metadata', 'Path::metadata': 'metadata', 'fs::set_permissions': 'set_permissions', 'File::set_permissions': 'set_permissions',
    'File::sync_all': 'sync', 'File::sync_data': 'sync', 'Write::flush': 'flush', 'fs::hard_link': 'hard_link', 'File::set_len': 'set_len',
    'TempFile::in_dir': 'temp_create', 'TempFile::new': 'temp_create', 'TempFile::with_contents': 'temp_write', 'TempFile::panic_on_cleanup_error': None,
    'TempFile::cleanup': 'temp_cleanup', 'io::copy': 'io_copy', 'fs::canonicalize': 'canonicalize', 'Path::canonicalize': 'canonicalize', 'Path::try_exists': 'metadata', 'fs::exists': 'metadata',
    'de::from_reader': 'from_reader', 'ser::to_writer_pretty': 'to_writer', 'ser::to_writer': 'to_writer', 'BufWriter::into_inner': 'flush',
    'TempFileBuilder::build': 'temp_create', 'Read::read_exact': 'read', 'Read::read': 'read_some', 'BufWriter::flush': 'flush', 'de::from_str': 'from_reader', 'de::from_slice': 'from_reader',
    'ser::to_string': 'to_writer', 'ser::to_string_pretty': 'to_writer', 'ser::to_vec': 'to_writer', 'fs::symlink_metadata': 'metadata',
}


def mk_fallible(op):
    def f(I, st, c, args, rt):
        if rt is None or rt.k != 'adt' or rt.r['path'] != 'core::result::Result':
            s = st.copy()
            I.event(s, 'ok', op, args)
            return [(s, I.opaque(rt, op) if rt is not None else UNIT)]
        okval = None
        a = arg_ty(rt)
        if a is not None and a.k == 'adt' and op in ('open', 'create', 'create_new', 'open_write', 'temp_create', 'temp_write'):
            okval = ('sym', ('file', op, tuple(content(I, st, x) for x in args), I.sitekey()), a)
        elif op == 'from_reader' and a is not None:
            okval = mk_sym(('parsed', content(I, st, args[0])), a)
        r = fallible(I, st, op, [pathval(I, st, x) for x in args], rt, okval)
        return r
    return f


@model('OpenOptions::new', 'File::options')
def m_oo_new(I, st, c, args, rt):
    return [(st, ('sym', ('oo', frozenset()), rt))]


@model('OpenOptions::read', 'OpenOptions::write', 'OpenOptions::append', 'OpenOptions::truncate', 'OpenOptions::create', 'OpenOptions::create_new')
def m_oo_flag(I, st, c, args, rt):
    a = args[0]
    v = I.strip(st, a)
    fl = v[1][1] if v[0] == 'sym' and v[1][0] == 'oo' else frozenset(('?',))
    on = args[1]
    s = st.copy()
    if on == ('bool', TRUE):
        fl = fl | {c.name}
    elif on == ('bool', FALSE):
        fl = fl - {c.name}
    else:
        fl = fl | {'?' + c.name}
    if a[0] == 'ref':
        I.write(s, a[1], a[2], ('sym', ('oo', fl), v[2] if v[0] == 'sym' else None))
    return [(s, a)]


@model('OpenOptions::open')
def m_oo_open(I, st, c, args, rt):
    v = I.strip(st, args[0])
    fl = v[1][1] if v[0] == 'sym' and v[1][0] == 'oo' else frozenset(('?',))
    if 'create_new' in fl:
        op = 'create_new'
    elif any(x.strip('?') in ('truncate', 'create', 'create_new', '') for x in fl):
        op = 'create'
    elif any(x.strip('?') in ('write', 'append') for x in fl):
        op = 'open_write'
    else:
        op = 'open'
    return mk_fallible(op)(I, st, c, args[1:], rt)


def pathval(I, st, v):
    u = I.strip(st, v)
    if u[0] == 'sym':
        return ('sym', u[1])
    if u[0] == 'str':
        return ('sym', u[1])
    return u


for _k, _o in FALLIBLE.items():
    if _o:
        M[_k] = mk_fallible(_o)


@model('TempFile::path')
def m_temp_path(I, st, c, args, rt):
    t = content(I, st, args[0])
    return [(st, ('refv', ('str', ('temppath', t))))]


@model('TempFile::leak')
def m_temp_leak(I, st, c, args, rt):
    s = st.copy()
    I.event(s, 'forget', args[0], None)
    return [(s, UNIT)]


@model('Path::exists', 'Path::is_file', 'Path::is_dir')
def m_exists(I, st, c, args, rt):
    t = content(I, st, args[0])
    return [(st, ('bool', ('b', (c.name, t))))]


@model('Path::join', 'Path::parent', 'Path::file_name', 'Path::with_extension', 'Path::display', 'Path::to_str', 'Path::to_string_lossy', 'Path::extension', 'Path::with_file_name')
def m_path_fn(I, st, c, args, rt):
    t = content(I, st, args[0])
    if rt is not None and rt.k == 'adt' and rt.r['path'] == 'core::option::Option':
        i = arg_ty(rt)
        x = mk_sym((c.name, t), i.r['inner']) if i.k == 'ref' else mk_sym((c.name, t), i)
        return [(st.copy(), none(rt)), (st.copy(), some(rt, ('refv', x) if i.k == 'ref' else x))]
    return [(st, ('sym', (c.name, t) + tuple(content(I, st, a) for a in args[1:]), rt))]


@model('stdio::stdout', 'stdio::stderr', 'stdio::stdin', 'Stdout::lock', 'Stdin::lock', 'Stderr::lock')
def m_stdout(I, st, c, args, rt):
    if c.name == 'lock':
        return [(st, ('sym', content(I, st, args[0]) or (c.name,), rt))]
    return [(st, ('sym', (c.name,), rt))]


@model('stdio::_print', 'stdio::_eprint')
def m_print(I, st, c, args, rt):
    s = st.copy()
    I.event(s, 'print', c.name, args[0])
    return [(s, UNIT)]


@model('Error::new', 'Error::other', 'Error::kind', 'error::new')
def m_io_error(I, st, c, args, rt):
    return [(st, I.opaque(rt, 'error') if c.name != 'kind' else ('sym', ('kind', content(I, st, args[0])), rt))]


# ------------------------------------------------------------------ logging, command line, regular expressions
@model('log::max_level', '__private_api::loc', '__private_api::log', 'log::logger', '__private_api::enabled', '__private_api::log_impl')
def m_log(I, st, c, args, rt):
    if c.name == 'log':
        s = st.copy()
        lvl = args[1] if len(args) > 1 else None
        I.event(s, 'log', lvl)
        return [(s, UNIT)]
    if rt is not None and rt.k == 'tuple':
        return [(st, UNIT)]
    return [(st, ('sym', ('const', c.name), rt))]


def m_level_cmp(I, st, c, args, rt):
    # whether a message is printed is irrelevant to every property: explore the printing side only
    return [(st, some(rt, ('agg', arg_ty(rt), 0, ())))]


@model('Parser::parse', 'Parser::parse_from', 'Parser::try_parse')
def m_clap(I, st, c, args, rt):
    return [(st, mk_sym(('p', 'args'), rt))]


@model('stderrlog::new', 'StdErrLog::module', 'StdErrLog::verbosity', 'StdErrLog::timestamp', 'StdErrLog::quiet', 'StdErrLog::color', 'StdErrLog::show_level')
def m_stderrlog(I, st, c, args, rt):
    return [(st, args[0] if args and rt is not None and rt.k == 'ref' else ('sym', ('stderrlog',), rt))]


@model('StdErrLog::init')
def m_stderrlog_init(I, st, c, args, rt):
    # installing the logger twice is the only failure: not possible at program start
    return [(st, ok(rt, UNIT))]


@model('Regex::new')
def m_regex_new(I, st, c, args, rt):
    return [(st, ok(rt, mk_sym(('regex', content(I, st, args[0])), arg_ty(rt))))]


@model('Regex::captures')
def m_captures(I, st, c, args, rt):
    t = content(I, st, args[1])
    rx = content(I, st, args[0])
    v = mk_sym(('captures', rx, t), arg_ty(rt))
    b = ('b', ('matches', rx, t))
    return [(s, some(rt, v)) for s in st.assume(b, True)] + [(s, none(rt)) for s in st.assume(b, False)]


@model('Regex::is_match')
def m_is_match(I, st, c, args, rt):
    return [(st, ('bool', ('b', ('matches', content(I, st, args[0]), content(I, st, args[1])))))]


@model('Captures::get', 'Captures::name')
def m_cap_get(I, st, c, args, rt):
    t = content(I, st, args[0])
    n = I.strip(st, args[1])
    n = st.canon(n[1]) if n[0] == 'int' else n
    v = mk_sym(('group', t, n), arg_ty(rt))
    b = ('b', ('hasgroup', t, n))
    h = I.group_always(t, n)
    if h is True:
        return [(st, some(rt, v))]
    return [(s, some(rt, v)) for s in st.assume(b, True)] + [(s, none(rt)) for s in st.assume(b, False)]


@model('Match::as_str')
def m_match_str(I, st, c, args, rt):
    t = content(I, st, args[0])
    return [(st, ('refv', ('str', ('text', t))))]


@model('Lazy::get')
def m_lazy(I, st, c, args, rt):
    return [(st, ('refv', mk_sym(('lazy', content(I, st, args[0])), rt.r['inner'])))]


# ------------------------------------------------------------------ everything else
MUTREF = 'mut'


def havoc_args(I, st, args):
    """forget the contents of whatever was passed by mutable reference (or captured by a closure)"""
    seen = set()

    def go(v, depth):
        if depth > 4:
            return
        if v[0] == 'ref':
            if (v[1], v[2]) in seen:
                return
            seen.add((v[1], v[2]))
            if v[1][0] == 'G':
                I.event(st, 'leak', v[1])
            cur = I.read(st, v[1], v[2])
            if cur[0] == 'ref':
                go(cur, depth + 1)
                return
            new = forget(I, cur)
            try:
                I.write(st, v[1], v[2], new)
            except Exception:
                pass
        elif v[0] == 'agg':
            for x in v[3]:
                go(x, depth + 1)
    for a in args:
        go(a, 0)


def forget(I, v):
    k = v[0]
    if k == 'int':
        return ('int', var(atom(fresh('forgot'), None, None, True)))
    if k == 'bool':
        return ('bool', ('b', fresh('forgot')))
    if k == 'seq':
        return ('seq', v[1], v[2], fresh('forgot'), var(atom(fresh('len'), 0, LA.MAX, True)), (), ())
    if k == 'iter':
        return ('iter', ('opq', fresh('forgot'), None), ZERO, var(atom(fresh('len'), 0, LA.MAX, True)))
    if k == 'agg' and v[1] is not None:
        return ('sym', fresh('forgot'), v[1])
    if k == 'str':
        return ('str', fresh('forgot'))
    if k == 'map':
        return ('sym', fresh('forgot'), v[2])
    if k == 'sym':
        return ('sym', fresh('forgot'), v[2])
    return v


def dropped(I, st, v, ty):
    if ty is None:
        return
    n = ty.name
    if 'TempFile' in n or 'File' in n or 'BufWriter' in n or 'Guard' in n:
        I.event(st, 'drop', v, ty)


PURE_PREFIX = ('core::fmt::', 'core::any::', 'core::mem::size_of', 'core::mem::align_of')


def unknown_call(I, st, c, args, rt):
    s = st.copy()
    if c.rpath.startswith('<log::Level as core::cmp::PartialOrd') or 'log::Level' in (c.rpath or ''):
        return m_level_cmp(I, st, c, args, rt)
    if c.rpath.startswith('<stderrlog::'):
        return [(s, I.opaque(rt, 'log') if rt is not None else UNIT)]
    I.event(s, 'unknown', c, args)
    I.unk(c.path)
    havoc_args(I, s, [a for a in args])
    if rt is None:
        return [(s, ('sym', fresh('call'), None))]
    if rt.k == 'never':
        I.terminals.append((s, 'diverge', c.path))
        return []
    return [(s, I.opaque(rt, 'call'))]


# ------------------------------------------------------------------ Result / Option combinators without a body of their own (generic code)
def _combinator(kind):
    def m(I, st, c, args, rt):
        if I.p.fns.get(c.key) is not None:
            return None
        r = variant_split(I, st, args[0])
        if r is None:
            return None
        out = []
        for s, a in r:
            isopt = a[1] is not None and a[1].k == 'adt' and a[1].r['path'] == 'core::option::Option'
            good = a[2] == (1 if isopt else 0)
            if kind == 'map' and good:
                for s2, v in I.call_value(s, args[1], [a[3][0]], arg_ty(rt, 0)):
                    out.append((s2, some(rt, v) if isopt else ok(rt, v)))
            elif kind == 'map_err' and not good:
                for s2, v in I.call_value(s, args[1], [a[3][0]], arg_ty(rt, 1)):
                    out.append((s2, err(rt, v)))
            elif kind == 'and_then' and good:
                out += I.call_value(s, args[1], [a[3][0]], rt)
            else:
                out.append((s, ('agg', rt, a[2], a[3])))
        return out
    return m


for _k in ('map', 'map_err', 'and_then'):
    for _t in ('Result', 'Option'):
        if f'{_t}::{_k}' not in M and not (_k == 'map_err' and _t == 'Option'):
            M[f'{_t}::{_k}'] = _combinator(_k)
