"""C14, C15, C16, C17, C22, C24: what each hunk operation does, item by item.

Every operation is analysed for an arbitrary hunk of the shape the differ
produces and an arbitrary target, with the operations it calls inlined.  What is
compared is a run of items of the hunk and of the target, what is written is
followed item by item (sa/checks/output.py)."""
from .. import mir, interp as IP, lin as LA, models as MO
from ..lin import var, const, add, sub, addc, neg, atom, ZERO
from . import base
from .output import Out
from .engine import NUL, tyname, opt_payload
from .panics import Panics

BIG = 1 << 60


class Hunk:
    """an arbitrary hunk: sides, context lengths and the invariants the differ establishes"""

    def __init__(self, I, st, ty, term=('p', 'a1')):
        self.ok = False
        v = IP.mk_sym(term, ty)
        self.v = v
        fs = {f['name']: i for i, f in enumerate(ty.r['variants'][0]['fields'])}
        if not {'before', 'after', 'context_lengths'} <= set(fs):
            return
        self.side = {}
        for n in ('before', 'after'):
            sn = I.field(st, v, fs[n], 0)
            sty = ty.r['variants'][0]['fields'][fs[n]]['ty']
            sf = {f['name']: (i, f['ty']) for i, f in enumerate(sty.r['variants'][0]['fields'])} if sty.k == 'adt' else {}
            if not {'start', 'items'} <= set(sf):
                return
            start = I.field(st, sn, sf['start'][0], 0, sf['start'][1])
            items = ('fld', ('fld', term, 0, fs[n]), 0, sf['items'][0])
            ln = var(atom(('len', items), 0, LA.MAX))
            self.side[n] = (start[1], items, ln)
        cl = I.field(st, v, fs['context_lengths'], 0)
        cty = ty.r['variants'][0]['fields'][fs['context_lengths']]['ty']
        self.ctx = tuple(I.field(st, cl, i, 0, cty.r['elems'][i])[1] for i in range(2))
        for s in self.side.values():
            st.ge(addc(neg(add(s[0], s[2])), BIG))
            st.ge(sub(s[2], add(self.ctx[0], self.ctx[1])))
        self.ok = True

    def get(self, before, rev):
        return self.side['before' if before != rev else 'after']


def redn_values(I, st, hunk, ty, some):
    """an Option<(u8, u8)> argument and the two amounts"""
    if not some:
        return ('agg', ty, 0, ()), (ZERO, ZERO)
    t = opt_payload(ty)
    r = [IP.mk_sym(('p', f'r{i}'), t.r['elems'][i]) for i in range(2)]
    for x, c in zip(r, hunk.ctx):
        st.ge(sub(c, x[1]))
    for side in hunk.side.values():
        st.ge(sub(side[2], add(r[0][1], r[1][1])))      # follows
    return ('agg', ty, 1, (('agg', t, 0, tuple(r)),)), (r[0][1], r[1][1])


def find(p, name, sfx):
    return [f for f in base.fns(p, name, 'pw_diff_lib') if (base.selfname(f) or '').endswith(sfx)]


class Target:
    """an arbitrary target text, as a sequence or with its front consumed"""

    def __init__(self, I, st, ty, name, mut=False):
        self.ty = ty
        inner = ty.r['inner'] if ty.k == 'ref' else ty
        self.kind = tyname(inner)
        self.consumed = None
        if self.kind == 'Seq':
            self.term = ('fld', ('p', name), 0, 0)
            self.value = ('refv', IP.mk_sym(('p', name), inner))
        elif self.kind == 'ConsumableSeq':
            fs = inner.r['variants'][0]['fields']
            vals = []
            for i, f in enumerate(fs):
                if f['ty'].k == 'ref':
                    seq = f['ty'].r['inner']
                    vals.append(('refv', IP.mk_sym(('p', 'target'), seq)))
                    self.term = ('fld', ('p', 'target'), 0, 0)
                else:
                    c = IP.mk_sym(('p', 'consumed'), f['ty'])
                    vals.append(c)
                    self.ci = i
                    self.consumed = c[1]
            self.loc = ('G', 'pd')
            st.mem[self.loc] = ('agg', inner, 0, tuple(vals))
            self.value = ('ref', self.loc, ())
        else:
            self.term = None
            return
        self.len = var(atom(('len', self.term), 0, LA.MAX))
        st.ge(addc(neg(self.len), BIG))
        if self.consumed is not None:
            st.ge(sub(self.len, self.consumed))

    def now(self, I, st):
        v = I.read(st, self.loc, ())
        return I.field(st, v, self.ci, 0)


def bool_(b):
    return ('bool', IP.TRUE if b else IP.FALSE)


class Case:
    """one call of one operation in one situation"""

    def __init__(self, R, p, f, props, label):
        self.R, self.p, self.f, self.label = R, p, f, label
        self.rep = R if R.prop in props else NUL
        self.watch = R.prop == 'C26'
        self.I = IP.Interp(p)
        self.I.cap = 400
        self.st = IP.State()
        self.panics = []

    def run(self, args, out=None):
        I = self.I
        if out is not None:
            out.init(self.st)
            I.on_event = out.event
        if self.R.prop == 'C26':
            Panics(self.R, self.label).attach(I)
        try:
            rs = I.exec_fn(self.st, self.f, args)
        except IP.Stop:
            self.rep.undecided('analysis budget', f'{self.f.path} {self.label}')
            rs = []
        if self.watch:
            self.R.ok('no panic', I.asserts)
        if self.rep is not NUL or self.watch:
            self.R.add_interp(I)
            for k in I.unmodelled:
                self.R.undecided('modelled calls', k)
            if not rs:
                self.R.undecided('a result', f'{self.f.path} {self.label}')
        return rs


def off_value(I, st, ty, name='off'):
    v = IP.mk_sym(('p', name), ty)
    st.ge(addc(v[1], BIG))
    st.ge(addc(neg(v[1]), BIG))
    return v


def matches(rep, I, s, hunk, side, target, at, redn, name, key, msg):
    """a run of the side without the context given up equals the target there"""
    start, items, ln = side
    n = sub(sub(ln, redn[0]), redn[1])
    base.oblige(rep, I, s, name, IP.fge(at), key, msg + ' (before the start of the target)')
    base.oblige(rep, I, s, name, IP.fge(sub(target.len, add(at, n))), key, msg + ' (beyond the end of the target)')
    ok = s.ent_run(items, redn[0], target.term, at, n) or s.ent_ge(neg(n))
    if ok:
        rep.ok(name)
    elif s.wid == 0 and all(base.exact(IP.fge(x)) for x in (at, n)):
        rep.violate(name, key, msg + ' (not every item was compared)')
    else:
        rep.undecided(name, f'{key}: {msg}')


# ------------------------------------------------------------------ text hunks
def text_probe(R, p):
    for f in find(p, 'will_apply', 'TextChangeClump'):
        for rev in (False, True):
            probe_one(R, p, f, rev, rev, False)
    for f in find(p, 'is_already_applied', 'TextChangeClump'):
        for rev in (False, True):
            probe_one(R, p, f, rev, not rev, False)
    for n in ('will_apply_nearby', 'is_already_applied_nearby'):
        for f in find(p, n, 'TextChangeClump'):
            for rev in (False, True):
                for nxt in (False, True):
                    probe_one(R, p, f, rev, rev if n == 'will_apply_nearby' else not rev, True, nxt)


def probe_one(R, p, f, rev, look, near, nxt=None):
    props = ('C14', 'C16') if look == rev else ('C24', 'C16')
    c = Case(R, p, f, props, f'rev={rev}')
    I, st = c.I, c.st
    ty = f.locals[1].r['inner']
    h = Hunk(I, st, ty)
    rep = c.rep
    if not h.ok or f.argc != (5 if near else 4):
        rep.undecided('shape', f.path)
        return
    tg = Target(I, st, f.locals[2], 'a2')
    args = [('refv', h.v), tg.value]
    if near:
        oty = f.locals[3]
        if nxt:
            h2 = Hunk(I, st, ty, ('p', 'nx'))
            args.append(('agg', oty, 1, (('refv', h2.v),)))
        else:
            args.append(('agg', oty, 0, ()))
    off = off_value(I, st, f.locals[len(args) + 1])
    args += [off, bool_(rev)]
    side = h.get(True, look)
    key = f'{f.name} {"reverse" if rev else "forward"}'
    hits = 0
    if near:
        I.prehook = Probe(c, h, look, tg).hook
    for s, v in c.run(args):
        if v[0] != 'agg':
            rep.undecided('result', key)
            continue
        if v[2] == 0:
            continue
        w = v[3][0]
        o = off[1]
        if near:
            if w[0] != 'agg' or w[3][0][0] != 'int':
                rep.undecided('result', key)
                continue
            o = add(o, w[3][0][1])
            w = w[3][1]
        w = I.strip(s, w)
        if w[0] != 'agg':
            # the value passed on is not decided: look at both cases
            rep.undecided('result', key)
            continue
        var_ = w[1].r['variants'][w[2]]
        redn = (ZERO, ZERO)
        k2 = f'{key} clean'
        if var_['fields']:
            t = I.strip(s, w[3][0])
            if t[0] != 'agg':
                rep.undecided('result', key)
                continue
            redn = (t[3][0][1], t[3][1][1])
            k2 = f'{key} reduced'
        hits += 1
        at = add(add(side[0], o), redn[0])
        if near:
            found_near(c, s, h, look, tg, o, redn if var_['fields'] else None, at, k2)
            continue
        r16 = rep if R.prop == 'C16' else NUL
        r14 = rep if R.prop in ('C14', 'C24') else NUL
        if var_['fields']:
            for x, cx, n in zip(redn, h.ctx, ('leading', 'trailing')):
                base.oblige(r16, I, s, 'no more than the context is given up', IP.fge(sub(cx, x)), k2, f'more {n} items can be given up than are context')
            matches(r16, I, s, h, side, tg, at, redn, 'what is given up is left out of the comparison', k2, 'a match with reduced context is reported')
        matches(r14, I, s, h, side, tg, at, redn, 'a match is complete', k2, 'a match is reported')
    if not hits:
        rep.undecided('a match is complete', f'{key}: no match seen')


class Probe:
    """the search: matching at one position is a step (its own body is judged by probe_one)"""

    def __init__(self, c, h, look, tg):
        self.c, self.h, self.look, self.tg = c, h, look, tg
        self.n = 0

    def hook(self, I, st, c, args, rt):
        f = self.c.p.fns.get(c.key)
        if f is None or f.name not in ('will_apply', 'is_already_applied') or not (base.selfname(f) or '').endswith('TextChangeClump') or len(args) != 4:
            return None
        t = MO.content(I, st, args[0])
        data = MO.content(I, st, args[1])
        off = I.strip(st, args[2])
        r = I.strip(st, args[3])
        r = st.decide(r[1]) if r[0] == 'bool' else None
        if off[0] != 'int' or r is None or t != self.h.v[1]:
            I.unk('arguments of a match')
            return None
        if f.name == 'is_already_applied':
            r = not r
        key = self.c.f.name
        d = True if data == ('p', 'target') else (None if base.has_u(data) or data is None else False)
        self.c.rep.check('the target given is the one searched', d, key, 'a hunk is looked for in other data than the target')
        self.c.rep.check('the side asked for is looked for', r == self.look, key, 'the search looks for the other side of the hunk')
        out = [(st.copy(), ('agg', rt, 0, ()))]
        wty = opt_payload(rt)
        side = self.h.get(True, r)
        for i, v in enumerate(wty.r['variants']):
            s = st.copy()
            if not v['fields']:
                w, redn = ('agg', wty, i, ()), None
            else:
                ft = v['fields'][0]['ty']
                self.n += 1
                rs = [IP.mk_sym(('p', f'redn{self.n}.{j}'), ft.r['elems'][j]) if s.wid == 0 else I.opaque(ft.r['elems'][j], 'redn') for j in range(2)]
                w, redn = ('agg', wty, i, (('agg', ft, 0, tuple(rs)),)), (rs[0][1], rs[1][1])
                for x, cx in zip(redn, self.h.ctx):
                    s.ge(sub(cx, x))
            at = add(side[0], off[1])
            n = side[2]
            if redn:
                at = add(at, redn[0])
                n = sub(sub(n, redn[0]), redn[1])
            s.ge(at)
            s.ge(sub(self.tg.len, add(at, n)))
            if s.cons.bad:
                continue
            s.bools = {**s.bools, ('hit', r, off[1], redn): True}
            out.append((s, ('agg', rt, 1, (w,))))
        return out


def found_near(c, s, h, look, tg, o, redn, at, key):
    rep, I = c.rep, c.I
    if c.R.prop == 'C16':
        return
    ok = False
    hs = [k for k, v in s.bools.items() if v and isinstance(k, tuple) and k[0] == 'hit' and k[1] == look]
    for k in hs:
        if not s.ent_eq(sub(k[2], o)):
            continue
        if (redn is None) != (k[3] is None):
            continue
        if redn is None or all(s.ent_eq(sub(a, b)) for a, b in zip(redn, k[3])):
            ok = True
    prec = s.wid == 0 and base.exact(IP.feq(o))
    rep.check('a place found was matched there', True if ok else (False if prec else None), key, 'the position, amount given up or side reported by the search is not the one that matched')
    if rep is not NUL:
        base.oblige(rep, I, s, 'a place found is still to be consumed', IP.fge(sub(at, tg.consumed)), key, 'a match in text already consumed is reported')


def text_apply(R, p):
    for name in ('apply_into', 'already_applied_into'):
        for f in find(p, name, 'TextChangeClump'):
            for rev in (False, True):
                for some in (False, True):
                    text_apply_one(R, p, f, name == 'apply_into', rev, some)


def text_apply_one(R, p, f, apply, rev, some):
    c = Case(R, p, f, ('C15', 'C16') if some else ('C15',), f'rev={rev} reduced={some}')
    I, st, rep = c.I, c.st, c.rep
    if f.argc != 6:
        rep.undecided('shape', f.path)
        return
    h = Hunk(I, st, f.locals[1].r['inner'])
    st.mem[('G', 'into')] = IP.mk_sym(('p', 'into'), f.locals[2].r['inner'])
    tg = Target(I, st, f.locals[3], 'pd')
    off = off_value(I, st, f.locals[4])
    rv, r = redn_values(I, st, h, f.locals[5], some)
    side = h.get(apply, rev)
    other = h.get(not apply, rev)
    n = sub(sub(side[2], r[0]), r[1])
    at = add(add(side[0], off[1]), r[0])
    key = f'{f.name} {"reverse" if rev else "forward"}{" reduced" if some else ""}'
    # what the engine and the match guarantee
    st.ge(sub(tg.len, add(at, n)))
    st.ge(at)
    if apply:
        st.ge(sub(at, tg.consumed))
    starts = [st]
    if not apply:
        starts = [s for s in st.assume(IP.fge(sub(add(at, n), tg.consumed)), True) + st.assume(IP.fge(sub(add(at, n), tg.consumed)), False) if not s.cons.bad]
    for s0 in starts:
        c2 = Case(R, p, f, ('C15', 'C16') if some else ('C15',), c.label)
        c2.st = s0.copy()
        if apply:
            pieces = [('items', tg.term, tg.consumed, at), ('items', other[1], r[0], sub(other[2], r[1]))]
            final = add(at, n)
        else:
            ahead = s0.ent_ge(sub(add(at, n), tg.consumed))
            final = add(at, n) if ahead else tg.consumed
            pieces = [('items', tg.term, tg.consumed, final)]
        o = Out(rep, c2.I, pieces, 'what is written' if R.prop != 'C16' else 'the same context is left out of what is written', key,
                'applying a hunk' if apply else 'passing over an already applied hunk')
        for s, v in c2.run([('refv', h.v), ('ref', ('G', 'into'), ()), tg.value, off, rv, bool_(rev)], o):
            if v[0] != 'agg':
                rep.undecided('result', key)
                continue
            if v[2] == 1:
                continue
            o.done(s)
            now = tg.now(c2.I, s)
            if now[0] == 'int':
                base.oblige(rep, c2.I, s, 'what is consumed' if R.prop != 'C16' else 'the same context is left out of what is consumed', IP.feq(sub(now[1], final)), key,
                            'the amount of the target consumed is not the region replaced' if apply else 'the amount of the target consumed is not the region recognised')
            else:
                rep.undecided('what is consumed', key)


def text_failure(R, p):
    for f in find(p, 'write_failure_data_into', 'TextChangeClump'):
        for rev in (False, True):
            c = Case(R, p, f, ('C17',), f'rev={rev}')
            I, st = c.I, c.st
            h = Hunk(I, st, f.locals[1].r['inner'])
            st.mem[('G', 'into')] = IP.mk_sym(('p', 'into'), f.locals[2].r['inner'])
            b, a = h.get(True, rev), h.get(False, rev)
            key = f'{f.name} {"reverse" if rev else "forward"}'
            o = Out(c.rep, I, [('lit', None), ('items', b[1], ZERO, b[2]), ('lit', None), ('items', a[1], ZERO, a[2]), ('lit', None)],
                    'a conflict block is complete', key, 'the block for a failed hunk')
            for s, v in c.run([('refv', h.v), ('ref', ('G', 'into'), ()), bool_(rev)], o):
                if v[0] == 'agg' and v[2] == 0:
                    o.done(s)


# ------------------------------------------------------------------ byte hunks
def byte_ops(R, p):
    for name in ('will_apply', 'is_already_applied'):
        for f in find(p, name, 'ByteChangeClump'):
            for rev in (False, True):
                c = Case(R, p, f, ('C14',) if name == 'will_apply' else ('C24',), f'rev={rev}')
                I, st = c.I, c.st
                h = Hunk(I, st, f.locals[1].r['inner'])
                tg = Target(I, st, f.locals[2], 'a2')
                side = h.get(name == 'will_apply', rev)
                key = f'byte {name} {"reverse" if rev else "forward"}'
                hits = 0
                for s, v in c.run([('refv', h.v), tg.value, bool_(rev)]):
                    v = I.strip(s, v)
                    if v[0] != 'bool':
                        c.rep.undecided('result', key)
                        continue
                    for s2 in s.assume(v[1], True):
                        if s2.cons.bad:
                            continue
                        hits += 1
                        matches(c.rep, I, s2, h, side, tg, side[0], (ZERO, ZERO), 'a match is complete', key, 'a match is reported')
                if not hits:
                    c.rep.undecided('a match is complete', f'{key}: no match seen')
    for name in ('apply_into', 'already_applied_into'):
        for f in find(p, name, 'ByteChangeClump'):
            for rev in (False, True):
                byte_apply_one(R, p, f, name == 'apply_into', rev)


def byte_apply_one(R, p, f, apply, rev):
    c = Case(R, p, f, ('C15',), f'rev={rev}')
    I, st, rep = c.I, c.st, c.rep
    h = Hunk(I, st, f.locals[1].r['inner'])
    tg = Target(I, st, f.locals[2], 'pd')
    st.mem[('G', 'into')] = IP.mk_sym(('p', 'into'), f.locals[3].r['inner'])
    side, other = h.get(apply, rev), h.get(not apply, rev)
    at, n = side[0], side[2]
    key = f'byte {f.name} {"reverse" if rev else "forward"}'
    st.ge(sub(tg.len, add(at, n)))
    if apply:
        st.ge(sub(at, tg.consumed))
        starts = [st]
    else:
        g = IP.fge(sub(add(at, n), tg.consumed))
        starts = [s for s in st.assume(g, True) + st.assume(g, False) if not s.cons.bad]
    for s0 in starts:
        c2 = Case(R, p, f, ('C15',), c.label)
        c2.st = s0.copy()
        if apply:
            pieces = [('items', tg.term, tg.consumed, at), ('items', other[1], ZERO, other[2])]
            final = add(at, n)
        else:
            final = add(at, n) if s0.ent_ge(sub(add(at, n), tg.consumed)) else tg.consumed
            pieces = [('items', tg.term, tg.consumed, final)]
        o = Out(rep, c2.I, pieces, 'what is written', key, 'applying a hunk' if apply else 'passing over an already applied hunk')
        for s, v in c2.run([('refv', h.v), tg.value, ('ref', ('G', 'into'), ()), bool_(rev)], o):
            if v[0] == 'agg' and v[2] == 1:
                continue
            o.done(s)
            now = tg.now(c2.I, s)
            if now[0] == 'int':
                base.oblige(rep, c2.I, s, 'what is consumed', IP.feq(sub(now[1], final)), key, 'the amount of the target consumed is not the region replaced')
            else:
                rep.undecided('what is consumed', key)


# ------------------------------------------------------------------ the target itself
def target_ops(R, p):
    for name in ('new', 'write_remainder', 'write_into_upto', 'advance_consumed_by'):
        for f in [f for f in base.fns(p, name, 'pw_diff_lib') if 'ConsumableSeq' in f.key]:
            if name == 'new':
                c = Case(R, p, f, ('C15',), '')
                for s, v in c.run([base.arg(c.I, c.st, f.locals[1], 'a1')]):
                    v = c.I.strip(s, v)
                    zero = None
                    if v[0] == 'agg':
                        ints = [x for x in v[3] if x[0] == 'int']
                        zero = len(ints) == 1 and s.decide(IP.feq(ints[0][1]))
                    c.rep.check('nothing is consumed to begin with', zero, f.key, 'the target starts out partly consumed')
                continue
            c = Case(R, p, f, ('C15',), '')
            I, st, rep = c.I, c.st, c.rep
            tg = Target(I, st, f.locals[1], 'pd')
            args = [tg.value]
            pieces = []
            final = None
            key = f.path.split('::')[-1] + ' ' + (f.locals[1].name.split('::')[-1])
            starts = [st]
            if name == 'advance_consumed_by':
                n = IP.mk_sym(('p', 'by'), f.locals[2])
                args.append(n)
                st.ge(sub(sub(tg.len, tg.consumed), n[1]))
                final = add(tg.consumed, n[1])
            else:
                st.mem[('G', 'into')] = IP.mk_sym(('p', 'into'), f.locals[2].r['inner'])
                args.append(('ref', ('G', 'into'), ()))
                if name == 'write_into_upto':
                    u = IP.mk_sym(('p', 'upto'), f.locals[3])
                    args.append(u)
                    st.ge(sub(tg.len, u[1]))
                    g = IP.fge(sub(u[1], tg.consumed))
                    starts = [s for s in st.assume(g, True) + st.assume(g, False) if not s.cons.bad]
                else:
                    final = tg.len
            for s0 in starts:
                c2 = Case(R, p, f, ('C15',), '')
                c2.st = s0.copy()
                fin = final
                if name == 'write_into_upto':
                    fin = u[1] if s0.ent_ge(sub(u[1], tg.consumed)) else tg.consumed
                o = Out(rep, c2.I, [('items', tg.term, tg.consumed, fin if name != 'advance_consumed_by' else tg.consumed)], 'what is written', key, 'copying the target')
                for s, v in c2.run(args, o):
                    if v[0] == 'agg' and tyname(v[1]) == 'Result' and v[2] == 1:
                        continue
                    o.done(s)
                    now = tg.now(c2.I, s)
                    if now[0] == 'int':
                        base.oblige(rep, c2.I, s, 'what is consumed', IP.feq(sub(now[1], fin)), key, 'the amount of the target consumed is not what was copied')
                    else:
                        rep.undecided('what is consumed', key)


def anchors(R, p, names):
    for n, sfx in names:
        if not find(p, n, sfx):
            R.undecided('anchor', f'{n} of {sfx} not found')


def rules(R):
    R.rule('each hunk operation is analysed for an arbitrary hunk and target; compared runs are item-equality facts, output is followed item by item')
    R.assume.append('hunks have the shape the differ gives them: context lengths together no longer than either side, positions below 2^60')


def c14(R):
    rules(R)
    R.rule('a reported match entails equality of every item of the side, without the context given up, with the target, inside the target')
    p = mir.load()
    text_probe(R, p)
    byte_ops(R, p)


def c24(R):
    c14(R)


def c15(R):
    rules(R)
    R.rule('an application writes the target up to the replaced region and the other side, and consumes exactly the replaced region')
    p = mir.load()
    text_apply(R, p)
    byte_ops(R, p)
    target_ops(R, p)


def c16(R):
    rules(R)
    R.rule('amounts given up are at most the context lengths and the same in comparison, output and consumption')
    p = mir.load()
    text_probe(R, p)
    text_apply(R, p)


def c17(R):
    rules(R)
    R.rule('a conflict block holds a marker, all of the before side, a marker, all of the after side and a marker')
    p = mir.load()
    text_failure(R, p)


def c26(R):
    rules(R)
    R.rule('every arithmetic, bounds, slice and unwrap check met while a hunk is tried or applied holds in every state that reaches it')
    p = mir.load()
    text_probe(R, p)
    text_apply(R, p)
    text_failure(R, p)
    byte_ops(R, p)
    target_ops(R, p)
