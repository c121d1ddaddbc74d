"""C03 (library side), C17, C24 and the engine clauses of C14, C15: what the two apply engines do with each hunk.

The engines are analysed with the hunk operations as single steps (their own
bodies are judged in sa/checks/clump.py).  A monitor follows every hunk from the
moment the engine's iterator yields it to the moment it asks for the next one."""
from .. import mir, interp as IP, lin as LA, models as MO
from ..lin import var, const, add, sub, addc, neg, atom, ZERO
from ..models import content
from . import base

OUTCOME = {'clean': 'clean', 'fuzzy': 'fuzzy', 'already': 'already_applied', 'already-fuzzy': 'already_applied_fuzzy', 'fail': 'failed'}
KEYOF = {v: k for k, v in OUTCOME.items()}


class Rep:
    """passes on the obligations that belong to the property being reported"""

    def __init__(self, R, props):
        self.R, self.props = R, props

    def of(self, *props):
        return self.R if self.R.prop in props else NUL


class Nul:
    def __getattr__(self, n):
        return lambda *a, **k: None


NUL = Nul()
MANY = 12
LAST = ('G', 'n_last')     # displacement of the hunk placed last


def opt_payload(ty):
    return ty.r['args'][0] if ty is not None and ty.k == 'adt' and ty.r['path'] == 'core::option::Option' else None


def tyname(t):
    return t.r['path'].split('::')[-1] if t is not None and t.k == 'adt' else None


class Engine:
    def __init__(self, R, p, fn, rev, bound, only=None):
        self.R, self.p, self.fn, self.rev, self.bound = R, p, fn, rev, bound
        self.only = only          # a run in which every hunk has the same fate
        self.rep = Rep(R, None)
        self.I = I = IP.Interp(p)
        I.prehook = self.hook
        if bound:
            I.peel, I.cap = bound + 1, 5000
        else:
            I.peel, I.cap = 0, 400
        self.key = fn.path
        self.byte = 'Byte' in (base.selfname(fn) or '')
        self.clump = None
        self.usize = p.types['usize']
        self.u8 = p.types['u8']

    # ------------------------------------------------------------------ helpers
    def selfclump(self, c):
        """the body called, when it is a method of a hunk"""
        f = self.p.fns.get(c.key)
        if f is None or not f.crate.startswith('pw_') or f.poly:
            return None
        s = base.selfname(f)
        return f if s is not None and s.endswith('ChangeClump') and not s.endswith('::ChangeClump') else None

    def geom(self, st, cl, name, *args):
        """value of one of the hunk's own position queries"""
        f = next((f for f in base.fns(self.p, name, 'pw_diff_lib') if base.selfname(f) == self.clump), None)
        if f is None:
            return None
        I = IP.Interp(self.p)
        rs = I.exec_fn(st, f, [('refv', cl)] + list(args))
        rs = [v for s, v in rs]
        return rs[0] if len(rs) == 1 and rs[0][0] == 'int' else None

    def hno(self, st):
        return st.mem[('G', 'n_done')][1]

    def tag(self, st):
        n = st.ghost.get('nops', 0)
        n = 99 if n == '?' else n
        st.ghost['nops'] = min(n + 1, 99)
        return f'{self.hno(st)[0]}.{n}'

    def exactrun(self, st):
        return st.wid == 0

    def index(self, t):
        """which hunk of the diff is this?"""
        if isinstance(t, tuple) and len(t) == 3 and t[0] == 'elem' and t[1] == self.base:
            return t[2]
        return None

    def current(self, st, t):
        i = self.index(t)
        return i is not None and st.decide(IP.feq(sub(i, self.hno(st)))) is True

    def boolof(self, st, v):
        v = self.I.strip(st, v)
        return st.decide(v[1]) if v[0] == 'bool' else None

    def redn(self, st, v):
        """None, (r0, r1) or 'unknown'"""
        v = self.I.strip(st, v)
        if v[0] != 'agg':
            return 'unknown'
        if v[2] == 0:
            return None
        t = self.I.strip(st, v[3][0])
        if t[0] == 'agg' and len(t[3]) == 2 and all(x[0] == 'int' for x in t[3]):
            return (t[3][0][1], t[3][1][1])
        return 'unknown'

    def pd_fields(self, st, v):
        """(location of the consumed count, its value, term of the data)"""
        I = self.I
        if v[0] != 'ref':
            return None
        loc, path = v[1], v[2]
        x = I.read(st, loc, path)
        while x[0] == 'ref':
            loc, path = x[1], x[2]
            x = I.read(st, loc, path)
        ty = x[1] if x[0] == 'agg' else (x[2] if x[0] == 'sym' else None)
        if ty is None or ty.k != 'adt' or tyname(ty) != 'ConsumableSeq':
            return None
        ci = di = None
        for i, f in enumerate(ty.r['variants'][0]['fields']):
            if f['ty'].name == 'usize':
                ci = i
            elif f['ty'].k == 'ref':
                di = i
        if ci is None or di is None:
            return None
        cv = I.field(st, x, ci, 0, self.usize)
        dv = I.field(st, x, di, 0)
        return (loc, path, ci), cv, content(I, st, dv)

    def set_consumed(self, st, v):
        q = self.pd_fields(st, v)
        if q is None:
            return
        (loc, path, ci), cv, _ = q
        new = IP.mk_sym(('p', 'consumed' + self.tag(st)), self.usize) if st.wid == 0 else self.I.opaque(self.usize, 'consumed')
        self.I.write(st, loc, path + (('f', ci),), new)
        if self.only:
            st.mem[('G', 'consumed')] = new
        if cv[0] == 'int':
            st.ge(sub(new[1], cv[1]))

    def hits(self, st, cl, rev):
        return [k for k, v in st.bools.items() if v and isinstance(k, tuple) and k[0] == 'hit' and k[2] == rev and st.term_eq(k[1], cl)]

    def hit(self, st, key):
        if not self.answer:
            st.bools = {**st.bools, key: True}

    def find(self, st, cl, rev, off, redn):
        """a match on record with this offset and these reductions"""
        for h in self.hits(st, cl, rev):
            if off is not None and not st.ent_eq(sub(h[4], off)):
                continue
            hr = h[5]
            if redn is None and hr is None:
                return h
            if redn is not None and hr is not None and st.ent_eq(sub(redn[0], hr[0])) and st.ent_eq(sub(redn[1], hr[1])):
                return h
        return None

    def outcome(self, st, t, kind):
        """a hunk has been dealt with: it must be the next one"""
        rep = self.rep.of('C17', 'C03', 'C24', 'C15', 'C29')
        i = self.index(t)
        if i is None:
            rep.undecided('hunk after hunk', f'{self.key} {kind}')
        else:
            base.oblige(rep, self.I, st, 'hunk after hunk', IP.feq(sub(i, self.hno(st))), f'{self.key} {kind}',
                        'a hunk is dealt with twice, out of order, or after another one was left out')
        if kind in OUTCOME:
            l = ('G', 'n_' + kind)
            st.mem[l] = ('int', addc(st.mem[l][1], 1))
        l = ('G', 'n_done')
        st.mem[l] = ('int', addc(st.mem[l][1], 1))
        st.bools = {k: v for k, v in st.bools.items() if not (isinstance(k, tuple) and k[0] == 'hit' and st.term_eq(k[1], t))}
        for k in ('marks', 'nops'):
            st.ghost.pop(k, None)

    def found(self, st, t):
        """the answer engines: the result of the next hunk was found"""
        if self.answer and self.current(st, t):
            l = ('G', 'n_done')
            st.mem[l] = ('int', addc(st.mem[l][1], 1))
            st.ghost.pop('nops', None)

    def mark(self, st, t, what):
        if not self.answer and self.current(st, t):
            m = st.ghost.get('marks', ())
            if m != '?' and what not in m:
                st.ghost['marks'] = tuple(sorted(m + (what,)))

    # ------------------------------------------------------------------ hunk operations as steps
    def hook(self, I, st, c, args, rt):
        if c.name in ('le', 'lt', 'ge', 'gt') and c.args and c.args[0].name.startswith('log::Level'):
            return [(st, ('bool', IP.TRUE))]        # logging changes nothing here
        g = self.p.fns.get(c.key)
        if g is not None and len(I.frames) and g.name in ('write_remainder', 'write_into_upto') and (base.selfname(g) or '').endswith('::ConsumableSeq'):
            s = st.copy()
            if g.name == 'write_remainder':
                n = s.ghost.get('rest', 0)
                s.ghost['rest'] = n if n == '?' else min(n + 1, 2)
                s.mem[('G', 'n_rest')] = s.mem[('G', 'n_done')]
                q = self.pd_fields(s, args[0])
                if q is not None:
                    d = True if q[2] == self.data else (None if base.has_u(q[2]) or s.wid else False)
                    self.rep.of('C15').check('the rest of the target is written', d, self.key, 'the remainder written is not that of the target given')
            else:
                self.set_consumed(s, args[0])
            return MO.fallible(I, s, g.name, [], rt)
        f = self.selfclump(c)
        if f is None:
            return None
        self.clump = base.selfname(f)
        n = f.name
        if n == 'will_apply' or (self.byte and n == 'is_already_applied'):
            return self.probe(I, st, f, args, rt)
        if n == 'will_apply_nearby':
            return self.probe_near(I, st, f, args, rt)
        if n in ('apply_into', 'already_applied_into'):
            return self.do_apply(I, st, f, args, rt)
        if n == 'write_failure_data_into':
            s = st.copy()
            t = self.cl(s, args[0])
            r = self.boolof(s, args[-1])
            self.rep.of('C17').check('a conflict block shows the direction applied', None if r is None else r == self.rev, self.key, 'the conflict block is written for the other direction')
            self.nothing_fits(s, t)
            self.outcome(s, t, 'fail')
            return MO.fallible(I, s, 'fail-block', [], rt)
        return None

    def cl(self, st, a):
        return content(self.I, st, a)

    def probe(self, I, st, f, args, rt):
        """does the hunk match at the given offset?"""
        t = self.cl(st, args[0])
        data = content(I, st, args[1])
        r = self.boolof(st, args[-1])
        if r is None:
            I.unk('direction of a probe')
            return None
        if self.byte and f.name == 'is_already_applied':
            r = not r
        want = 'apply' if r == self.rev else 'applied'
        d = True if data == self.data else (None if base.has_u(data) or data is None else False)
        self.rep.of('C14', 'C24').check('the target given is the one searched', d, f'{self.key} {f.name}', 'a hunk is looked for in other data than the target')
        none, out = st.copy(), []
        self.mark(none, t, want + '-here')
        if want == 'apply' and not self.byte and not self.answer:
            o = I.strip(st, args[2])
            if o[0] == 'int':
                self.expected(st, t, o[1], 'is tried at')
        if self.byte:
            yes = st.copy()
            self.hit(yes, ('hit', t, r, 'here', ZERO, None))
            self.mark(yes, t, want + '-here')
            if want == 'applied':
                self.found(yes, t)
            out = [(yes, ('bool', IP.TRUE)), (none, ('bool', IP.FALSE))]
            if self.only:
                if self.only[0] != want + '-here':
                    return out[1:]
                self.ahead(I, yes, args[0], r, want, ZERO, None)
                return out[:1]
            return out
        off = I.strip(st, args[2])
        if off[0] != 'int':
            return None
        out.append((none, ('agg', rt, 0, ())))
        for s, w, redn in self.wills(I, st, args[0], opt_payload(rt)):
            self.hit(s, ('hit', t, r, 'here', off[1], redn))
            self.mark(s, t, want + '-here')
            if want == 'applied':
                self.found(s, t)
            out.append((s, ('agg', rt, 1, (w,))))
            if self.only and self.only == (want + '-here', redn is not None):
                self.ahead(I, s, args[0], r, want, off[1], redn)
                return out[-1:]
        return out[:1] if self.only else out

    def expected(self, st, t, off, what):
        """the expected position of a hunk is the recorded one plus the displacement of the hunk placed before it"""
        if self.answer or LAST not in st.mem or not self.current(st, t):
            return
        base.oblige(self.rep.of('C29'), self.I, st, 'expected positions', IP.feq(sub(off, st.mem[LAST][1])), f'{self.key} {what}',
                    f'a hunk {what} another position than the recorded one displaced like the hunk before it')

    def follower(self, st, v):
        """the hunk that ends the part searched must be a later one"""
        if self.answer:
            return
        v = self.I.strip(st, v)
        rep = self.rep.of('C29')
        alts = MO.variant_split(self.I, st, v)
        if alts is None:
            rep.undecided('the part searched', f'{self.key}: the following hunk')
            return
        for s, x in alts:
            if x[2] == 0:
                rep.ok('the part searched')
                continue
            i = self.index(self.cl(s, x[3][0]))
            if i is None:
                rep.undecided('the part searched', f'{self.key}: the following hunk')
            else:
                base.oblige(rep, self.I, s, 'the part searched', IP.fge(addc(sub(i, self.hno(s)), -1)), self.key, 'the part searched for a hunk is ended by a hunk that does not follow it')

    def ahead(self, I, s, a, r, want, off, redn):
        """in a run with one fate: the place found is still to be consumed"""
        b = self.geom(s, I.strip(s, a), 'before_start', ('bool', IP.TRUE if r else IP.FALSE))
        if want == 'apply' and b is not None:
            x = add(b[1], off)
            c = s.mem.get(('G', 'consumed'))
            s.ge(sub(add(x, redn[0]) if redn is not None else x, c[1] if c is not None else ZERO))

    def wills(self, I, st, a, wty):
        """the two ways a hunk can match"""
        res = []
        for i, v in enumerate(wty.r['variants']):
            s = st.copy()
            if not v['fields']:
                res.append((s, ('agg', wty, i, ()), None))
                continue
            t = v['fields'][0]['ty']
            n = self.tag(s) if s.wid == 0 else None
            rs = []
            for j in range(2):
                rs.append(IP.mk_sym(('p', f'redn{n}.{j}'), self.u8) if n is not None else I.opaque(self.u8, 'redn'))
            res.append((s, ('agg', wty, i, (('agg', t, 0, tuple(rs)),)), (rs[0][1], rs[1][1])))
        return res

    def probe_near(self, I, st, f, args, rt):
        t = self.cl(st, args[0])
        r = self.boolof(st, args[-1])
        off = I.strip(st, args[3])
        pd = args[1]
        q = self.pd_fields(st, pd)
        if r is None or off[0] != 'int':
            I.unk('arguments of a search')
            return None
        if q is not None:
            d = True if q[2] == self.data else (None if q[2] is None or base.has_u(q[2]) else False)
            self.rep.of('C14', 'C24').check('the target given is the one searched', d, f'{self.key} {f.name}', 'a hunk is looked for in other data than the target')
        want = 'apply' if r == self.rev else 'applied'
        if want == 'apply':
            self.expected(st, t, off[1], 'is searched for around')
            self.follower(st, args[2])
            m = st.ghost.get('marks', ())
            if self.current(st, t):
                self.rep.of('C29').check('the expected position comes first', None if m == '?' else True if 'apply-here' in m else None if st.wid else False, self.key,
                                         'a hunk is looked for elsewhere although it may match at its expected position')
        none = st.copy()
        self.mark(none, t, want + '-near')
        out = [(none, ('agg', rt, 0, ()))]
        pt = opt_payload(rt)
        ity, wty = pt.r['elems']
        for s, w, redn in self.wills(I, st, args[0], wty):
            adj = IP.mk_sym(('p', 'adj' + self.tag(s)), ity) if s.wid == 0 else I.opaque(ity, 'adj')
            tot = add(off[1], adj[1])
            self.hit(s, ('hit', t, r, 'near', tot, redn))
            # contract of the search: what it returns has not been consumed yet
            cl = I.strip(s, args[0])
            b = self.geom(s, cl, 'before_start', ('bool', IP.TRUE if r else IP.FALSE))
            if b is not None and q is not None and q[1][0] == 'int':
                x = add(b[1], tot)
                if redn is not None:
                    x = add(x, redn[0])
                s.ge(sub(x, q[1][1]))
            self.mark(s, t, want + '-near')
            if want == 'applied':
                self.found(s, t)
            if not s.cons.bad:
                out.append((s, ('agg', rt, 1, (('agg', pt, 0, (adj, w)),))))
                if self.only and self.only == (want + '-near', redn is not None):
                    return out[-1:]
        return out[:1] if self.only else out

    def do_apply(self, I, st, f, args, rt):
        s = st.copy()
        t = self.cl(s, args[0])
        already = f.name == 'already_applied_into'
        r = self.boolof(s, args[-1])
        if r is None:
            I.unk('direction of an application')
            return None
        pdarg = next((a for a in args[1:3] if self.pd_fields(s, a) is not None), None)
        self.rep.of('C14', 'C09').check('direction as asked', r == self.rev, f'{self.key} {f.name}', 'a hunk is treated in the other direction than asked')
        need = (not self.rev) if already else self.rev
        if self.byte:
            off, redn = ZERO, None
        else:
            off, redn = I.strip(s, args[3]), self.redn(s, args[4])
            off = off[1] if off[0] == 'int' else None
        kind = 'other'
        if redn == 'unknown' or off is None:
            self.rep.of('C14', 'C24').undecided('applied as matched', f'{self.key} {f.name}')
            kind = 'already' if already else 'clean'
        else:
            h = self.find(s, t, need, off, redn)
            name = 'recognised as matched' if already else 'applied as matched'
            what = ('a hunk is taken as already applied' if already else 'a hunk is applied') + ' with a position, reduction or direction that was not matched'
            rep = self.rep.of('C24') if already else self.rep.of('C14') if self.byte else self.rep.of('C14', 'C29')
            if h is None:
                hs = self.hits(s, t, need)
                prec = s.wid == 0 and not base.has_u(t) and all(base.exact(IP.feq(sub(h2[4], off))) for h2 in hs) and base.exact(IP.feq(off))
                rep.check(name, False if prec else None, f'{self.key} {f.name}', what)
                kind = 'already' if already else 'clean'
            else:
                rep.ok(name)
                exactly = h[3] == 'here' and h[5] is None
                kind = ('already' if exactly else 'already-fuzzy') if already else ('clean' if exactly else 'fuzzy')
            # nothing consumed is replaced again
            if not already and pdarg is not None:
                q = self.pd_fields(s, pdarg)
                b = self.geom(s, I.strip(s, args[0]), 'before_start', ('bool', IP.TRUE if r else IP.FALSE))
                if b is not None and q[1][0] == 'int':
                    x = add(b[1], off)
                    if redn is not None:
                        x = add(x, redn[0])
                    base.oblige(self.rep.of('C15'), I, s, 'only unconsumed text is replaced', IP.fge(sub(x, q[1][1])), f'{self.key} {kind}',
                                'a hunk can be applied to text that has already been consumed')
        if not self.byte:
            if already and self.current(s, t):
                m = s.ghost.get('marks', ())
                miss = [x for x in ('apply-here', 'apply-near') if x not in m]
                self.rep.of('C29').check('every place is tried', None if m == '?' else True if not miss else None if s.wid else False, f'{self.key} {" ".join(miss)}',
                                         'a hunk is passed over although it may match at its expected position or elsewhere')
            if off is not None and LAST in s.mem:
                s.mem[LAST] = ('int', off)
        self.outcome(s, t, kind)
        if pdarg is not None:
            self.set_consumed(s, pdarg)
        else:
            I.unk('position of an application')
        return MO.fallible(I, s, f.name, [], rt)

    def nothing_fits(self, st, t):
        marks = st.ghost.get('marks', ())
        need = ('apply-here', 'apply-near', 'applied-here', 'applied-near')
        miss = [x for x in need if marks != '?' and x not in marks]
        d = None if marks == '?' or (miss and st.wid) else not miss
        self.rep.of('C17').check('failed only when nothing fits', d, f'{self.key} {" ".join(miss)}', 'a hunk is reported as failed although not every way of placing it was tried: ' + ', '.join(miss))

    # ------------------------------------------------------------------ run
    def run(self):
        R, p, fn, I = self.R, self.p, self.fn, self.I
        st = IP.State()
        args = [base.arg(I, st, fn.locals[i + 1], f'a{i + 1}') for i in range(fn.argc)]
        self.answer = fn.locals[0].k == 'bool'
        args[-1] = ('bool', IP.TRUE if self.rev else IP.FALSE)
        self.data = content(I, st, args[1])
        for k in list(OUTCOME) + ['done']:
            st.mem[('G', 'n_' + k)] = ('int', ZERO)
        if self.R.prop == 'C29':
            st.mem[LAST] = ('int', ZERO)
        self.base = self.hunks(args[0])
        if self.base is None:
            R.undecided('engine', f'{self.key}: no list of hunks in the diff')
            return
        self.len = var(atom(('len', self.base), 0, LA.MAX))
        if self.bound:
            st.ge(addc(neg(self.len), self.bound))
        try:
            rs = I.exec_fn(st, fn, args)
        except IP.Stop:
            R.undecided('engine', f'{self.key}: analysis budget')
            return
        R.add_interp(I)
        n = 0
        for s, v in rs:
            n += 1
            self.judge(s, v)
        R.notes['engine_outcomes'] = R.notes.get('engine_outcomes', 0) + n
        for k in I.unmodelled:
            R.undecided('modelled calls', k)

    def hunks(self, v):
        """the list of hunks kept in the diff"""
        v = v[1] if v[0] == 'refv' else v
        todo = [(v[1], v[2])] if v[0] == 'sym' else []
        while todo:
            t, ty = todo.pop(0)
            if ty.k != 'adt' or ty.r['path'].startswith(('std::', 'core::', 'alloc::')) or len(ty.r['variants']) != 1:
                continue
            for i, f in enumerate(ty.r['variants'][0]['fields']):
                ft = f['ty']
                x = ('fld', t, 0, i)
                if ft.k == 'adt' and ft.r['path'].split('::')[-1] in ('Vec', 'Box', 'Rc', 'Arc'):
                    e = ft.r['args'][0]
                    e = e.r['inner'] if e.k in ('slice', 'array') else e
                    if (tyname(e) or '').endswith('ChangeClump'):
                        return x
                todo.append((x, ft))
        return None

    def judge(self, s, v):
        rep, key = self.rep, self.key
        every = IP.feq(sub(self.hno(s), self.len))
        if self.answer:
            d = s.decide(v[1]) if v[0] == 'bool' else None
            if d is False:
                return
            for x in [s] if d or v[0] != 'bool' else s.assume(v[1], True):
                base.oblige(rep.of('C24'), self.I, x, 'yes only after the last hunk', every, key, 'the answer can be yes without every hunk having been found in the target')
            return
        if v[0] != 'agg':
            rep.of('C03', 'C17', 'C15').undecided('result', key)
            return
        if v[2] == 1:
            # an error: fine for the text engine only when an operation failed (C06); the byte engine also gives up this way
            return
        base.oblige(rep.of('C03', 'C17', 'C15'), self.I, s, 'success only after the last hunk', every, key, 'success can be reported although a hunk was left out')
        rest = s.ghost.get('rest', 0)
        if rest == '?' or s.wid and rest != 1:
            rep.of('C15').undecided('the rest of the target is written', key)
        elif rest == 0:
            rep.of('C15').violate('the rest of the target is written', key, 'the text after the last hunk is not written')
        elif rest > 1:
            rep.of('C15').violate('the rest of the target is written', key, 'the rest of the target is written twice')
        else:
            base.oblige(rep.of('C15'), self.I, s, 'the rest of the target is written', IP.feq(sub(s.mem[('G', 'n_rest')][1], self.hno(s))), key,
                        'the rest of the target is written before the last hunk has been treated')
        if self.byte:
            return
        x = v[3][0]
        ty = x[1] if x[0] == 'agg' else None
        if ty is None or tyname(ty) != 'Statistics':
            rep.of('C03', 'C17').undecided('totals', key)
            return
        for i, f in enumerate(ty.r['variants'][0]['fields']):
            k = KEYOF.get(f['name'])
            if k is None:
                continue
            g = s.mem[('G', 'n_' + k)][1]
            fv = x[3][i]
            r = rep.of('C03', 'C17') if k == 'fail' else rep.of('C17')
            if fv[0] != 'int':
                r.undecided('totals', f['name'])
                continue
            base.oblige(r, self.I, s, 'totals', IP.feq(sub(fv[1], g)), f'{key} {f["name"]}', f'the count of hunks reported as {f["name"]} differs from the number of hunks that were')


def engines(R):
    p = mir.load()
    out = []
    for f in sorted(p.fns.values(), key=lambda f: f.key):
        if f.crate != 'pw_diff_lib' or f.poly or '{' in f.key or f.argc < 3:
            continue
        s = base.selfname(f)
        if s is None or not s.endswith('ChangeDiff'):
            continue
        if f.name in ('apply_into', 'is_already_applied', 'already_applied'):
            out.append(f)
    return p, out


def run(R, names):
    p, fs = engines(R)
    want = {'apply_into': 2, 'answer': 2}
    got = {'apply_into': 0, 'answer': 0}
    for f in fs:
        got['apply_into' if f.name == 'apply_into' else 'answer'] += 1
        if (f.name == 'apply_into') not in names:
            continue
        for rev in (False, True):
            for bound in (2, 0):
                Engine(R, p, f, rev, bound).run()
            # longer runs in which every hunk has the same fate
            for w in ('apply-here', 'apply-near', 'applied-here', 'applied-near', 'none'):
                for redn in (False, True):
                    if 'Byte' in (base.selfname(f) or '') and (redn or w.endswith('near')):
                        continue
                    Engine(R, p, f, rev, MANY if w.startswith('apply-') else 6, (w, redn)).run()
    for k, n in want.items():
        if (k == 'apply_into') in names and got[k] < n:
            R.violate('anchor', k, 'an apply engine of text and byte diffs is gone')


def rules(R):
    R.rule('a monitor follows each hunk through the engine loop, for both directions and every outcome of the hunk operations')
    R.assume.append('the hunk operations (match, search, apply, recognise) are single steps here; their bodies are judged by the checks of C14, C15, C16')


def c03_lib(R):
    rules(R)
    R.rule('a hunk that is neither applied nor recognised is counted as failed (text) or ends the engine with an error (bytes)')
    run(R, (True,))


def c17(R):
    rules(R)
    R.rule('every hunk has exactly one outcome, the totals returned equal the number of hunks with that outcome')
    run(R, (True,))


def c24(R):
    rules(R)
    R.rule('the answer is yes only after every hunk was found; what is taken as already applied was matched as such')
    run(R, (True, False))


def c14(R):
    rules(R)
    R.rule('a hunk is applied with the position, reductions and direction that were matched')
    run(R, (True,))


def c15(R):
    rules(R)
    R.rule('nothing consumed is replaced again, and the rest of the target is written once after the last hunk')
    run(R, (True,))


def c29(R):
    rules(R)
    R.rule('a hunk is tried at its expected position, then searched for from there up to a later hunk, before it is passed over; it is applied where it was found')
    run(R, (True,))
