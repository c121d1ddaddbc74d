"""C13: the stored hunk is an excerpt of the inputs; queries on changes, runs and hunks agree with it."""
from .. import mir, interp as IP, lin as LA, models as MO
from ..lin import var, const, add, sub, addc, neg, atom, ZERO
from . import base
from .engine import NUL, tyname, opt_payload

BIG = 1 << 60
# what each change covers: (before start, before end, after start, after end) from its fields
RUN = 'CommonSubsequence'


def parts(I, st, v):
    """(variant name, before start, before end, after start, after end) of a change whose variant is known"""
    ty, fs = v[1], v[3]
    name = ty.r['variants'][v[2]]['name']

    def num(x):
        x = I.strip(st, x)
        return x[1] if x[0] == 'int' else None

    def sub_(x, i):
        return num(I.field(st, I.strip(st, x), i, 0))
    if name == 'NoChange':
        b, a, n = (sub_(fs[0], i) for i in range(3))
        return None if None in (b, a, n) else (name, b, add(b, n), a, add(a, n))
    if name == 'Delete':
        r = (sub_(fs[0], 0), sub_(fs[0], 1), num(fs[1]), num(fs[1]))
    elif name == 'Insert':
        r = (num(fs[0]), num(fs[0]), sub_(fs[1], 0), sub_(fs[1], 1))
    elif name == 'Replace':
        r = (sub_(fs[0], 0), sub_(fs[0], 1), sub_(fs[1], 0), sub_(fs[1], 1))
    else:
        return None
    return None if None in r else (name,) + r


def changes_of(I, st, v):
    """(state, parts) for every variant the value may have"""
    v = I.strip(st, v)
    alts = MO.variant_split(I, st, v)
    if alts is None:
        return None
    out = []
    for s, a in alts:
        if s.cons.bad:
            continue
        p = parts(I, s, a)
        if p is None:
            return None
        out.append((s, p))
    return out


def valid(st, p):
    """each change covers a range on both sides"""
    st.ge(sub(p[2], p[1]))
    st.ge(sub(p[4], p[3]))
    if p[0] != 'NoChange':
        st.ge(addc(add(sub(p[2], p[1]), sub(p[4], p[3])), -1))
    if p[0] == 'Replace':
        st.ge(addc(sub(p[2], p[1]), -1))
        st.ge(addc(sub(p[4], p[3]), -1))
    for x in p[1:]:
        st.ge(addc(neg(x), BIG))


def lin(I, st, v):
    v = I.strip(st, v)
    return v[1] if v[0] == 'int' else None


class Cl:
    """an arbitrary non-empty hunk of changes (ChangeClump)"""

    def __init__(self, I, ty, term=('p', 'a1')):
        self.I, self.ty = I, ty
        self.v = IP.mk_sym(term, ty)
        self.fs = {f['name']: (i, f['ty']) for i, f in enumerate(ty.r['variants'][0]['fields'])}
        self.ok = {'before', 'after', 'changes'} <= set(self.fs)

    def setup(self, st):
        """start states: one hunk per combination of the kinds of its first and last change"""
        I = self.I
        ch = I.field(st, self.v, self.fs['changes'][0], 0)
        n = I.seqlen(st, ch)
        st.ge(addc(n, -1))
        self.src = {}
        for k in ('before', 'after'):
            q = I.strip(st, I.field(st, self.v, self.fs[k][0], 0))
            q = I.strip(st, I.field(st, q, 0, 0))
            self.src[k] = q
        out = []
        first = changes_of(I, st, I.elem(st, ch, ZERO))
        for s, p in first or []:
            valid(s, p)
            for one in (True, False):
                for s2 in s.assume(IP.feq(addc(n, -1)), one):
                    if s2.cons.bad:
                        continue
                    if one:
                        # a hunk holds at least one change
                        if p[0] != 'NoChange':
                            out.append((s2, p, p))
                        continue
                    for s3, q in changes_of(I, s2, I.elem(s2, ch, addc(n, -1))) or []:
                        valid(s3, q)
                        s3.ge(sub(q[1], p[2]))
                        s3.ge(sub(q[3], p[4]))
                        if not s3.cons.bad:
                            out.append((s3, p, q))
        for s, p, q in out:
            for k, e in (('before', q[2]), ('after', q[4])):
                s.ge(sub(I.seqlen(s, self.src[k]), e))
        return [x for x in out if not x[0].cons.bad]


def excerpt(R, p):
    found = set()
    for f in base.fns(p, 'from', 'pw_diff_lib'):
        t = f.locals[1]
        if f.argc != 1 or tyname(t) != 'ChangeClump' or tyname(f.locals[0]) not in ('TextChangeClump', 'ByteChangeClump'):
            continue
        found.add(tyname(f.locals[0]))
        out = f.locals[0]
        of = {x['name']: (i, x['ty']) for i, x in enumerate(out.r['variants'][0]['fields'])}
        if not {'before', 'after', 'context_lengths'} <= set(of):
            R.undecided('anchor', f.key)
            continue
        I = IP.Interp(p)
        I.cap = 400
        cl = Cl(I, t)
        if not cl.ok:
            R.undecided('anchor', f.key)
            continue
        for st, a, b in cl.setup(IP.State()):
            key = f'{tyname(out)} {a[0]}..{b[0]}'
            for s, v in I.exec_fn(st.copy(), f, [cl.v]):
                v = I.strip(s, v)
                for k, x, y in (('before', a[1], b[2]), ('after', a[3], b[4])):
                    sn = I.field(s, v, of[k][0], 0)
                    sf = {z['name']: i for i, z in enumerate(of[k][1].r['variants'][0]['fields'])}
                    start = lin(I, s, I.field(s, sn, sf['start'], 0))
                    if start is None:
                        R.undecided('the start recorded', key)
                    else:
                        base.oblige(R, I, s, 'the start recorded', IP.feq(sub(start, x)), f'{key} {k}', f'the {k} start recorded is not where the first change starts')
                    same_items(R, I, s, 'the items recorded', I.field(s, sn, sf['items'], 0), cl.src[k], x, y, f'{key} {k}', f'the {k} items recorded are not those of the input from the first change to the last')
                cv = I.strip(s, I.field(s, v, of['context_lengths'][0], 0))
                for i, q in enumerate((a, b)):
                    got = lin(I, s, I.field(s, cv, i, 0))
                    # context beyond what the field can hold is not judged
                    want = sub(q[2], q[1]) if q[0] == 'NoChange' else ZERO
                    for s2 in s.assume(IP.fge(addc(neg(want), 255)), True):
                        if s2.cons.bad:
                            continue
                        if got is None:
                            R.undecided('the context recorded', key)
                        else:
                            base.oblige(R, I, s2, 'the context recorded', IP.feq(sub(got, want)), f'{key} {i}', f'the {"leading" if i == 0 else "trailing"} context recorded is not the length of the unchanged run there')
        R.add_interp(I)
    for k in ('TextChangeClump', 'ByteChangeClump'):
        if k not in found:
            R.undecided('anchor', k)


def same_items(R, I, s, name, v, src, x, y, key, msg):
    """v holds exactly the items [x, y) of src"""
    n = I.seqlen(s, v)
    a, b = I.seqid(v), I.seqid(src)
    if n is None:
        R.undecided(name, key)
        return
    if base.oblige(R, I, s, name, IP.feq(sub(n, sub(y, x))), key, msg) is not True:
        return
    if s.ent_eq(n):
        R.ok(name)
        return
    if a is not None and b is not None:
        want = add(b[1], x)
        if a[0] == b[0]:
            base.oblige(R, I, s, name, IP.feq(sub(a[1], want)), key, msg)
            return
        if s.ent_run(a[0], a[1], b[0], want, n):
            R.ok(name)
            return
    # item by item, at an arbitrary place
    k = var(atom(('p', 'k'), 0, LA.MAX))
    s = s.copy()
    if not s.ge(addc(sub(n, k), -1)):
        return
    u, w = I.elem(s, v, k), I.elem(s, src, add(x, k))
    f = MO.vals_equal(I, s, u, w)
    if f is None or base.has_u(f):
        R.undecided(name, key)
        return
    base.oblige(R, I, s, name, f, key, msg)


# ------------------------------------------------------------------ queries
def spec_side(p, rev, before=True):
    """(start, end) of one side of a change or hunk"""
    i = 1 if before != rev else 3
    return p[i], p[i + 1]


def query(R, I, s, name, v, key, want):
    """want: number, (a, b) pair or range of numbers"""
    v = I.strip(s, v)
    msg = f'{key.split(" ")[0]} does not answer with the excerpt it is asked about'
    if isinstance(want[0], tuple):
        for i, w in enumerate(want):
            x = lin(I, s, I.field(s, v, i, 0)) if v[0] in ('agg', 'sym') else None
            if x is None:
                R.undecided(name, key)
            else:
                base.oblige(R, I, s, name, IP.feq(sub(x, w)), f'{key} {i}', msg)
        return
    x = lin(I, s, v)
    if x is None:
        R.undecided(name, key)
    else:
        base.oblige(R, I, s, name, IP.feq(sub(x, want)), key, msg)


SIDEQ = {
    'before_start': lambda p, rev, r: spec_side(p, rev)[0],
    'before_end': lambda p, rev, r: spec_side(p, rev)[1],
    'before_length': lambda p, rev, r: sub(*spec_side(p, rev)[::-1]),
    'before_range': lambda p, rev, r: (add(spec_side(p, rev)[0], r[0]), sub(spec_side(p, rev)[1], r[1])),
    'my_before_range': lambda p, rev, r: (r[0], sub(sub(*spec_side(p, rev)[::-1]), r[1])),
}
for _k in list(SIDEQ):
    SIDEQ[_k.replace('before', 'after')] = lambda p, rev, r, g=SIDEQ[_k]: g(p, not rev, r)


def side_queries(R, p):
    for name, spec in SIDEQ.items():
        for f in base.fns(p, name, 'pw_diff_lib'):
            t = f.locals[1]
            t = t.r['inner'] if t.k == 'ref' else t
            if tyname(t) not in ('Change', 'ChangeClump', 'TextChangeClump', 'ByteChangeClump'):
                continue
            if tyname(t) == 'ChangeClump' and tyname(t.r['args'][-1]) not in ('String', 'u8') and 'String' not in t.name and 'u8' not in t.name:
                continue
            has_r = any(x.name.startswith('core::option::Option') for x in f.locals[2:f.argc + 1])
            if f.argc != 2 + has_r:
                R.undecided('shape', f.key)
                continue
            for rev in (False, True):
                for red in ((False, True) if has_r else (False,)):
                    I = IP.Interp(p)
                    I.cap = 400
                    for st, a, v in subjects(I, t):
                        args = [('refv', v)]
                        r = (ZERO, ZERO)
                        if has_r:
                            oty = f.locals[2]
                            if red:
                                pt = opt_payload(oty)
                                rs = tuple(IP.mk_sym(('p', f'r{i}'), pt.r['elems'][i]) for i in range(2))
                                r = (rs[0][1], rs[1][1])
                                for q in (1, 3):
                                    st.ge(sub(sub(a[q + 1], a[q]), add(*r)))
                                args.append(('agg', oty, 1, (('agg', pt, 0, rs),)))
                            else:
                                args.append(('agg', oty, 0, ()))
                        args.append(('bool', IP.TRUE if rev else IP.FALSE))
                        key = f'{name} {tyname(t)} {a[0]} {"reverse" if rev else "forward"}{" reduced" if red else ""}'
                        for s, x in I.exec_fn(st.copy(), f, args):
                            query(R, I, s, 'positions asked for', x, key, spec(a, rev, r))
                    R.add_interp(I)


def subjects(I, t):
    """(state, extents, value) of an arbitrary change / hunk"""
    st = IP.State()
    k = tyname(t)
    if k == 'Change':
        v = IP.mk_sym(('p', 'a1'), t)
        out = []
        for s, p in changes_of(I, st, v) or []:
            valid(s, p)
            out.append((s, p, v))
        return out
    if k == 'ChangeClump':
        cl = Cl(I, t)
        return [(s, (f'{a[0]}..{b[0]}', a[1], b[2], a[3], b[4]), cl.v) for s, a, b in cl.setup(st)] if cl.ok else []
    from .clump import Hunk
    h = Hunk(I, st, t)
    if not h.ok:
        return []
    b, a = h.side['before'], h.side['after']
    return [(st, ('hunk', b[0], add(b[0], b[2]), a[0], add(a[0], a[2])), h.v)]


def clump_queries(R, p):
    for name in ('starts', 'ends', 'ranges', 'context_lengths'):
        for f in base.fns(p, name, 'pw_diff_lib'):
            t = f.locals[1]
            t = t.r['inner'] if t.k == 'ref' else t
            if tyname(t) != 'ChangeClump' or not ('String' in t.name or t.name.endswith('u8>')):
                continue
            I = IP.Interp(p)
            I.cap = 400
            cl = Cl(I, t)
            for st, a, b in cl.setup(IP.State()) if cl.ok else []:
                key = f'{name} {a[0]}..{b[0]}'
                for s, v in I.exec_fn(st.copy(), f, [('refv', cl.v)]):
                    if name == 'ranges':
                        v = I.strip(s, v)
                        for i, w in enumerate(((a[1], b[2]), (a[3], b[4]))):
                            query(R, I, s, 'ranges asked for', I.field(s, v, i, 0), f'{key} {i}', w)
                        continue
                    w = {'starts': (a[1], a[3]), 'ends': (b[2], b[4])}.get(name)
                    ss = [s]
                    if w is None:
                        w = tuple(sub(q[2], q[1]) if q[0] == 'NoChange' else ZERO for q in (a, b))
                        for x in w:
                            ss = [z for y in ss for z in y.assume(IP.fge(addc(neg(x), 255)), True) if not z.cons.bad]
                    for s2 in ss:
                        query(R, I, s2, 'ranges asked for', v, key, w)
            R.add_interp(I)


def leaf(R, p):
    """CommonSubsequence, Range, Snippet and Seq queries"""
    def each(name, ty, argc, crate='pw_diff_lib'):
        fs = []
        for f in base.fns(p, name, crate):
            if f.argc != argc:
                continue
            t = f.locals[1]
            t = t.r['inner'] if t.k == 'ref' else t
            if tyname(t) == ty and (ty in ('CommonSubsequence', 'Range') or t.r['args'][0].name in ('u8', 'alloc::string::String')):
                fs.append((f, t))
        if not fs:
            R.undecided('anchor', f'{ty}::{name}')
        return fs

    def run(f, args, st):
        I = IP.Interp(p)
        r = I.exec_fn(st, f, args(I, st))
        R.add_interp(I)
        return I, r
    for name, spec in {
        'before_start': lambda b, a, n: b, 'after_start': lambda b, a, n: a, 'before_end': lambda b, a, n: add(b, n), 'after_end': lambda b, a, n: add(a, n),
        'before_range': lambda b, a, n: (b, add(b, n)), 'after_range': lambda b, a, n: (a, add(a, n)), 'len': lambda b, a, n: n,
    }.items():
        for f, t in each(name, 'CommonSubsequence', 1):
            st = IP.State()
            I = IP.Interp(p)
            v = IP.mk_sym(('p', 'a1'), t)
            b, a, n = (lin(I, st, I.field(st, v, i, 0)) for i in range(3))
            for x in (b, a, n):
                st.ge(addc(neg(x), BIG))
            for s, x in I.exec_fn(st, f, [('refv', v)]):
                query(R, I, s, 'positions of a run', x, f'{name} run', spec(b, a, n))
            R.add_interp(I)
    for name, spec in {'start': lambda a, b: a, 'end': lambda a, b: b, 'len': lambda a, b: sub(b, a)}.items():
        for f, t in each(name, 'Range', 1):
            st = IP.State()
            I = IP.Interp(p)
            v = IP.mk_sym(('p', 'a1'), t)
            a, b = (lin(I, st, I.field(st, v, i, 0)) for i in range(2))
            st.ge(sub(b, a))
            for s, x in I.exec_fn(st, f, [('refv', v)]):
                query(R, I, s, 'positions of a range', x, f'{name} range', spec(a, b))
            R.add_interp(I)
    for name in ('range', 'adj_length', 'adj_start'):
        for f, t in each(name, 'Snippet', 3 if name == 'adj_start' else 2):
            for red in (False, True):
                st = IP.State()
                I = IP.Interp(p)
                v = IP.mk_sym(('p', 'a1'), t)
                sf = {x['name']: i for i, x in enumerate(t.r['variants'][0]['fields'])}
                start = lin(I, st, I.field(st, v, sf['start'], 0))
                n = I.seqlen(st, I.field(st, v, sf['items'], 0))
                st.ge(addc(neg(start), BIG))
                args = [('refv', v)]
                off = ZERO
                if name == 'adj_start':
                    o = IP.mk_sym(('p', 'off'), f.locals[2])
                    off = o[1]
                    st.ge(addc(off, BIG))
                    st.ge(addc(neg(off), BIG))
                    st.ge(add(start, off))
                    args.append(o)
                oty = f.locals[len(args) + 1]
                r = (ZERO, ZERO)
                if red:
                    pt = opt_payload(oty)
                    rs = tuple(IP.mk_sym(('p', f'r{i}'), pt.r['elems'][i]) for i in range(2))
                    r = (rs[0][1], rs[1][1])
                    st.ge(sub(n, add(*r)))
                    args.append(('agg', oty, 1, (('agg', pt, 0, rs),)))
                else:
                    args.append(('agg', oty, 0, ()))
                want = {'range': (r[0], sub(n, r[1])), 'adj_length': sub(sub(n, r[0]), r[1]), 'adj_start': add(add(start, off), r[0])}[name]
                for s, x in I.exec_fn(st, f, args):
                    query(R, I, s, 'reduced positions', x, f'{name} {"reduced" if red else "full"}', want)
                R.add_interp(I)
    for name in ('items', 'subsequence', 'extract_snippet', 'range_from'):
        ty = 'Snippet' if name == 'items' else 'Seq'
        for f, t in each(name, ty, 2):
            for some in ((False, True) if name == 'items' else (True,)):
                st = IP.State()
                I = IP.Interp(p)
                v = IP.mk_sym(('p', 'a1'), t)
                sf = {x['name']: i for i, x in enumerate(t.r['variants'][0]['fields'])}
                src = I.field(st, v, sf.get('items', 0), 0)
                n = I.seqlen(st, src)
                key = f'{name} of {tyname(t)}{"" if some else " all"}'
                if name == 'range_from':
                    a = IP.mk_sym(('p', 'from'), f.locals[2])
                    for s, x in I.exec_fn(st, f, [('refv', v), a]):
                        query(R, I, s, 'ranges of an input', x, key, (a[1], n))
                    continue
                rt = opt_payload(f.locals[2]) if name == 'items' else f.locals[2]
                r = IP.mk_sym(('p', 'range'), rt)
                x, y = (lin(I, st, I.field(st, r, i, 0)) for i in range(2))
                st.ge(sub(y, x))
                st.ge(sub(n, y))
                if name == 'items':
                    # positions count from the start of the snippet; its own debug check allows for less
                    start = lin(I, st, I.field(st, v, sf['start'], 0))
                    st.ge(addc(neg(start), BIG))
                    r = ('agg', f.locals[2], 1, (r,)) if some else ('agg', f.locals[2], 0, ())
                    if not some:
                        x, y = ZERO, n
                for s, o in I.exec_fn(st, f, [('refv', v), r]):
                    o = I.strip(s, o)
                    if name == 'extract_snippet':
                        of = {z['name']: i for i, z in enumerate(f.locals[0].r['variants'][0]['fields'])}
                        query(R, I, s, 'items of an excerpt', I.field(s, o, of['start'], 0), key, x)
                        same_items(R, I, s, 'items of an excerpt', I.field(s, o, of['items'], 0), src, x, y, key, f'{key}: other items than asked for')
                        continue
                    walk(R, I, s, 'items of an excerpt', o, src, x, y, key)
                R.add_interp(I)


def walk(R, I, s, name, it, src, x, y, key):
    """an iterator passes over exactly the items [x, y) of src"""
    its = MO.to_iter(I, s, it)
    if its is None:
        R.undecided(name, key)
        return
    for s2, i in its:
        if i[0] != 'iter' or i[3] is None:
            R.undecided(name, key)
            continue
        g, pos, end = i[1:4]
        rev = False
        if g[0] == 'rev':
            R.check(name, False, key, f'{key}: items are passed over backwards')
            continue
        while g[0] in ('copied', 'refs'):
            g = g[1]
        if g[0] != 'slice':
            R.undecided(name, key)
            continue
        a, b = I.seqid(g[1]), I.seqid(src)
        if a is None or b is None or a[0] != b[0]:
            R.undecided(name, key)
            continue
        base.oblige(R, I, s2, name, IP.feq(sub(sub(end, pos), sub(y, x))), key, f'{key}: another number of items than asked for')
        if not s2.ent_eq(sub(end, pos)):
            base.oblige(R, I, s2, name, IP.feq(sub(add(add(a[1], g[2]), pos), add(b[1], x))), key, f'{key}: other items than asked for')


def c13(R):
    R.rule('the hunk stored for every combination of first and last change holds, on both sides, start, items and context lengths of exactly that excerpt')
    R.rule('every position, range and length query on changes, runs, hunks and excerpts answers with the number the excerpt has')
    R.assume.append('changes are in order and each covers a range of both inputs (C10, C12); context lengths are judged where they fit the field (255)')
    p = mir.load()
    excerpt(R, p)
    side_queries(R, p)
    clump_queries(R, p)
    leaf(R, p)
