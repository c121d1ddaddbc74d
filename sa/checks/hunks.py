"""C12: splitting an edit script into hunks."""
from .. import mir, interp as IP, lin as LA, models as MO
from ..lin import var, const, add, sub, addc, neg, atom, ZERO
from . import base
from .engine import tyname, opt_payload
from .script import parts, changes_of, lin, BIG

NEXT, COUNT = ('G', 'h.next'), ('G', 'h.count')
# how far the last unchanged run pushed is from the one in the script: before/after start, before/after end, and its length
GAP = [('G', f'h.gap{i}') for i in range(5)]
EV = 'every change is in one hunk, unaltered and in order'
CX = 'context is adjacent, aligned and bounded'


class Split:
    """one call of next() on an iterator standing anywhere in an arbitrary script"""

    def __init__(self, R, p, f):
        self.R, self.p, self.f = R, p, f
        self.ty = f.locals[1].r['inner']
        self.item = opt_payload(f.locals[0])
        self.fs = {}
        for i, x in enumerate(self.ty.r['variants'][0]['fields']):
            n = x['ty'].name
            if 'Peekable' in n or 'slice::iter::Iter' in n:
                self.fs['iter'] = i
            elif n == 'u8':
                self.fs['context'] = i
            elif tyname(x['ty']) == 'Option' and 'CommonSubsequence' in n:
                self.fs['stash'] = i
            elif x['name'] in ('before', 'after'):
                self.fs[x['name']] = i
        self.cty = next((x['ty'].r['args'][0] for x in self.item.r['variants'][0]['fields'] if tyname(x['ty']) == 'Vec'), None)
        self.ok = len(self.fs) == 5 and self.cty is not None
        self.S = ('p', 'script')

    def script_elem(self, st, k):
        return IP.mk_sym(('elem', self.S, st.canon(k)), self.cty)

    # ------------------------------------------------------------------
    def start(self, I, st, stashed):
        ty = self.ty
        fields = ty.r['variants'][0]['fields']
        self.len = var(atom(('len', self.S), 0, LA.MAX))
        st.ge(addc(neg(self.len), BIG))
        vals = []
        self.ctx = None
        base_seq = ('isym', self.S, self.cty)
        pos = ZERO
        starts = [st]
        for i, x in enumerate(fields):
            if i == self.fs['context']:
                v = IP.mk_sym(('p', 'context'), x['ty'])
                self.ctx = v[1]
            elif i in (self.fs['before'], self.fs['after']):
                v = ('refv', IP.mk_sym(('p', x['name']), x['ty'].r['inner']))
            else:
                v = None
            vals.append(v)
        if stashed:
            pos = var(atom(('p', 'pos'), 0, LA.MAX))
            st.ge(addc(pos, -1))
            st.ge(addc(sub(self.len, pos), -1))
        out = []
        oty = fields[self.fs['stash']]['ty']
        if not stashed:
            # at the start, or after the last hunk
            for what, p0 in (('start', ZERO), ('end', self.len)):
                s = st.copy()
                vv = list(vals)
                vv[self.fs['stash']] = ('agg', oty, 0, ())
                vv[self.fs['iter']] = ('iter', ('slice', base_seq, ZERO, True), p0, self.len)
                out.append((s, what, p0, None, vv))
            return out
        prev = self.script_elem(st, addc(pos, -1))
        for s, q in changes_of(I, st, prev) or []:
            if q[0] != 'NoChange':
                continue
            self.bound(s, q)
            t = opt_payload(oty)
            n = var(atom(('p', 'tail'), 0, LA.MAX))
            s.ge(sub(self.ctx, n))
            s.ge(sub(sub(q[2], q[1]), n))
            run = ('agg', t, 0, (('int', sub(q[2], n)), ('int', sub(q[4], n)), ('int', n)))
            vv = list(vals)
            vv[self.fs['stash']] = ('agg', oty, 1, (run,))
            vv[self.fs['iter']] = ('iter', ('slice', base_seq, ZERO, True), pos, self.len)
            out.append((s, 'middle', pos, run, vv))
        return out

    def bound(self, st, q):
        st.ge(sub(q[2], q[1]))
        st.ge(sub(q[4], q[3]))
        for x in q[1:]:
            self.small(st, x)

    def touched(self, I, st, seq, idx, v):
        """positions of the script's changes are small"""
        v = I.strip(st, v)
        if v[0] != 'sym' or v[2] is not self.cty:
            return
        for i, vr in enumerate(self.cty.r['variants']):
            fs = tuple(I.field(st, v, k, i, x['ty']) for k, x in enumerate(vr['fields']))
            q = parts(I, st, ('agg', self.cty, i, fs))
            if q is not None:
                for x in q[1:]:
                    self.small(st, x)

    def small(self, st, x):
        if x[0] == 0 and len(x[1]) == 1 and x[1][0][1] == 1:
            i = x[1][0][0]
            lo, hi = LA.RANGE.get(i, (None, None))
            LA.RANGE[i] = (lo, BIG if hi is None else min(hi, BIG))
        else:
            st.ge(addc(neg(x), BIG))

    # ------------------------------------------------------------------
    def event(self, I, st, ev):
        if ev[0] == 'push':
            self.push(I, st, ev[1], ev[2])
        elif ev[0] in ('pop', 'vecmut', 'sort', 'insert', 'leak'):
            st.ghost['lost'] = True

    def push(self, I, st, vec, v):
        g = st.ghost
        if g.get('lost'):
            return
        R, key = self.R, self.key
        if vec[0] != 'seq' or g.get('vec', vec[1]) != vec[1]:
            g['lost'] = True
            return
        v = I.strip(st, v)
        if not (v[0] in ('agg', 'sym') and (v[1] is self.cty or v[-1] is self.cty or (v[0] == 'agg' and v[1] is not None and v[1].name == self.cty.name))):
            return
        g['vec'] = vec[1]
        k = st.mem[NEXT][1]
        n = st.mem[COUNT][1]
        first = st.decide(IP.feq(n))
        src = self.script_elem(st, k)
        # the previous item was not the last: if it was context it must be complete
        if first is not True:
            for c in GAP[:4]:
                base.oblige(R, I, st, CX, IP.feq(st.mem[c][1]), f'{key} middle', 'context in the middle of a hunk is not complete')
        st.mem[NEXT] = ('int', addc(k, 1))
        st.mem[COUNT] = ('int', addc(n, 1))
        if v[0] == 'sym':
            if first is True:
                # whole: right for a change; as leading context only if it is short enough
                d = st.decide(IP.feq(addc(I.discr(st, v, self.cty)[1], -self.nc)))
                if d is not False:
                    q = parts(I, st, ('agg', self.cty, self.nc, tuple(I.field(st, v, j, self.nc, x['ty']) for j, x in enumerate(self.cty.r['variants'][self.nc]['fields']))))
                    if d is True and q is not None:
                        base.oblige(R, I, st, CX, IP.fge(sub(self.ctx, sub(q[2], q[1]))), f'{key} leading', 'more leading context than requested')
                    elif d is None:
                        R.undecided(CX, f'{key} leading')
            if v[1] == src[1] or st.term_eq(v[1], src[1]):
                R.ok(EV)
            else:
                self.bad(st, EV, 'order', 'a change is left out, repeated or out of order', not base.has_u(v[1]) and not base.has_u(src[1]))
            ln = None
            d = st.decide(IP.feq(addc(I.discr(st, v, self.cty)[1], -self.nc)))
            for c in GAP[:4]:
                st.mem[c] = ('int', ZERO)
            if d is True:
                q = parts(I, st, ('agg', self.cty, self.nc, tuple(I.field(st, v, j, self.nc, x['ty']) for j, x in enumerate(self.cty.r['variants'][self.nc]['fields']))))
                ln = sub(q[2], q[1])
                g['last'] = 'run'
            elif d is False:
                ln = ZERO
                g['last'] = 'change'
            else:
                g['lost'] = True
                R.undecided(CX, f'{key} kind')
                return
            st.mem[GAP[4]] = ('int', ln)
            return
        q = parts(I, st, v)
        if q is None:
            g['lost'] = True
            return
        if q[0] != 'NoChange':
            # an altered copy: must be equal to the script's
            w = None
            for s2, x in changes_of(I, st, src) or []:
                if x[0] == q[0] and all(s2.ent_eq(sub(a, b)) for a, b in zip(x[1:], q[1:])):
                    w = True
            d = st.decide(IP.feq(addc(I.discr(st, src, self.cty)[1], -v[2])))
            if w and d is True:
                R.ok(EV)
            else:
                self.bad(st, EV, 'order', 'a change is left out, altered, repeated or out of order', d is not None or not base.has_u(src[1]))
            for c in GAP:
                st.mem[c] = ('int', ZERO)
            g['last'] = 'change'
            return
        g['last'] = 'run'
        isnc = IP.feq(addc(I.discr(st, src, self.cty)[1], -self.nc))
        base.oblige(R, I, st, EV, isnc, f'{key} run', 'an unchanged run takes the place of a change')
        x = parts(I, st, ('agg', self.cty, self.nc, tuple(I.field(st, src, j, self.nc, y['ty']) for j, y in enumerate(self.cty.r['variants'][self.nc]['fields']))))
        gaps = (sub(q[1], x[1]), sub(q[3], x[3]), sub(x[2], q[2]), sub(x[4], q[4]))
        for gp in gaps:
            base.oblige(R, I, st, CX, IP.fge(gp), f'{key} inside', 'context reaches beyond the unchanged run')
        ln = sub(q[2], q[1])
        if first is True:
            for i in (2, 3):
                base.oblige(R, I, st, CX, IP.feq(gaps[i]), f'{key} leading', 'leading context is not adjacent to the change it precedes')
            base.oblige(R, I, st, CX, IP.fge(sub(self.ctx, ln)), f'{key} leading size', 'more leading context than requested')
            for c in GAP:
                st.mem[c] = ('int', ZERO)
        elif first is None:
            R.undecided(CX, f'{key} leading')
            g['lost'] = True
        else:
            for c, gp in zip(GAP, gaps):
                st.mem[c] = ('int', gp)
            st.mem[GAP[4]] = ('int', ln)

    def bad(self, st, name, what, msg, precise=True):
        if precise and st.wid == 0:
            self.R.violate(name, f'{self.key} {what}', msg)
        else:
            self.R.undecided(name, f'{self.key} {what}')

    # ------------------------------------------------------------------
    def run(self):
        R, p = self.R, self.p
        self.nc = next((i for i, x in enumerate(self.cty.r['variants']) if x['name'] == 'NoChange'), None)
        if self.nc is None:
            R.undecided('anchor', 'NoChange')
            return
        for stashed in (False, True):
            I0 = IP.Interp(p)
            st = IP.State()
            for s, what, pos, run, vals in self.start(I0, st, stashed):
                self.one(s, what, pos, run, vals)

    def one(self, st, what, pos, run, vals):
        R, p = self.R, self.p
        I = IP.Interp(p)
        I.cap = 400
        self.key = f'{self.ty.r["args"][-1].name.split("::")[-1]} from {what}'
        I.seqinv.append(self.touched)
        I.on_event = self.event
        loc = ('G', 'self')
        st.mem[loc] = ('agg', self.ty, 0, tuple(vals))
        # the next item due: the run the stash was cut from, or the next of the script
        st.mem[NEXT] = ('int', addc(pos, -1) if run is not None else pos)
        st.mem[COUNT] = ('int', ZERO)
        for c in GAP:
            st.mem[c] = ('int', ZERO)
        st.ghost['lost'] = False
        st.ghost['last'] = ''
        self.stash_parts = run
        try:
            rs = I.exec_fn(st, self.f, [('ref', loc, ())])
        except IP.Stop:
            R.undecided(EV, f'{self.key}: analysis budget')
            rs = []
        for s, v in rs:
            self.returned(I, s, v, what, pos)
        R.add_interp(I)

    def returned(self, I, s, v, what, pos):
        R, key = self.R, self.key
        v = I.strip(s, v)
        if v[0] != 'agg' or s.ghost.get('lost'):
            R.undecided(EV, f'{key}: not followed')
            return
        me = I.read(s, ('G', 'self'), ())
        it = I.field(s, me, self.fs['iter'], 0)
        stash = I.strip(s, I.field(s, me, self.fs['stash'], 0))
        if it[0] != 'iter' or stash[0] != 'agg':
            R.undecided(EV, f'{key}: iterator')
            return
        p1 = it[2]
        left = sub(self.len, p1)
        n, nxt = s.mem[COUNT][1], s.mem[NEXT][1]
        if v[2] == 0:
            base.oblige(R, I, s, EV, IP.feq(n), f'{key} dropped', 'changes gathered for a hunk are dropped')
            base.oblige(R, I, s, EV, IP.feq(left), f'{key} early end', 'no further hunk although changes are left')
            # nothing but one unchanged run may be passed over
            d = sub(p1, nxt)
            if s.ent_eq(d):
                R.ok(EV)
            else:
                f = IP.fand(IP.feq(addc(d, -1)), IP.feq(addc(I.discr(s, self.script_elem(s, nxt), self.cty)[1], -self.nc)))
                base.oblige(R, I, s, EV, f, f'{key} passed over', 'changes are passed over without a hunk')
            if what == 'middle':
                R.check(EV, False if s.wid == 0 else None, f'{key} nothing', 'no hunk although changes are left')
            return
        cl = I.strip(s, v[3][0])
        q = None
        src = {}
        for i, x in enumerate(self.item.r['variants'][0]['fields']):
            if tyname(x['ty']) == 'Vec':
                q = I.strip(s, I.field(s, cl, i, 0))
            elif x['name'] in ('before', 'after'):
                src[x['name']] = MO.content(I, s, I.field(s, cl, i, 0))
        if q is None or q[0] != 'seq' or q[1] != s.ghost.get('vec', q[1]):
            R.undecided(EV, f'{key}: the hunk')
            return
        base.oblige(R, I, s, EV, IP.feq(sub(I.seqlen(s, q), n)), f'{key} hunk', 'the hunk does not hold all the changes gathered')
        for k, t in src.items():
            R.check('the hunk refers to both inputs', t == ('p', k) or (None if t is None or base.has_u(t) else False), f'{key} {k}', f'the hunk does not refer to the {k} input')
        base.oblige(R, I, s, EV, IP.feq(sub(p1, nxt)), f'{key} passed over', 'changes are passed over without being put in the hunk')
        # the last item: trailing context
        for i in (0, 1):
            base.oblige(R, I, s, CX, IP.feq(s.mem[GAP[i]][1]), f'{key} trailing', 'trailing context is not adjacent to the change it follows')
        base.oblige(R, I, s, CX, IP.fge(sub(self.ctx, s.mem[GAP[4]][1])), f'{key} trailing size', 'more trailing context than requested')
        # what the next call starts from
        if stash[2] == 0:
            base.oblige(R, I, s, EV, IP.feq(left), f'{key} context lost', 'the rest of the script is left for the next hunk without its leading context')
            return
        base.oblige(R, I, s, EV, IP.fge(addc(left, -1)), f'{key} empty rest', 'context is kept for a hunk that does not come')
        t = I.strip(s, stash[3][0])
        b, a, m = (lin(I, s, I.field(s, t, i, 0)) for i in range(3))
        prev = self.script_elem(s, addc(p1, -1))
        x = parts(I, s, ('agg', self.cty, self.nc, tuple(I.field(s, prev, j, self.nc, y['ty']) for j, y in enumerate(self.cty.r['variants'][self.nc]['fields']))))
        base.oblige(R, I, s, CX, IP.feq(addc(I.discr(s, prev, self.cty)[1], -self.nc)), f'{key} kept', 'the context kept is not that of the run before the next hunk')
        base.oblige(R, I, s, CX, IP.feq(sub(add(b, m), x[2])), f'{key} kept before', 'the context kept is not adjacent to the next hunk')
        base.oblige(R, I, s, CX, IP.feq(sub(add(a, m), x[4])), f'{key} kept after', 'the context kept is not adjacent to the next hunk')
        base.oblige(R, I, s, CX, IP.fge(sub(self.ctx, m)), f'{key} kept size', 'more leading context than requested')
        base.oblige(R, I, s, CX, IP.fge(sub(sub(sub(x[2], x[1]), m), s.mem[GAP[4]][1])), f'{key} overlap', 'trailing context of one hunk and leading context of the next overlap')


def construct(R, p):
    """change_clumps starts at the first change with nothing kept"""
    for f in base.fns(p, 'change_clumps', 'pw_diff_lib'):
        t = f.locals[1].r['inner'] if f.locals[1].k == 'ref' else f.locals[1]
        if t.r['args'][0].name not in ('alloc::string::String', 'u8') or f.argc != 2:
            continue
        I = IP.Interp(p)
        st = IP.State()
        cx = IP.mk_sym(('p', 'context'), f.locals[2])
        fs = {x['name']: i for i, x in enumerate(t.r['variants'][0]['fields'])}
        for s, v in I.exec_fn(st, f, [('refv', IP.mk_sym(('p', 'a1'), t)), cx]):
            key = f'change_clumps {t.r["args"][0].name.split("::")[-1]}'
            v = I.strip(s, v)
            if v[0] != 'agg' or 'changes' not in fs:
                R.undecided('splitting starts at the first change', key)
                continue
            for i, x in enumerate(v[1].r['variants'][0]['fields']):
                w = I.strip(s, I.field(s, v, i, 0))
                if w[0] == 'iter':
                    q = I.seqid(w[1][1]) if w[1][0] == 'slice' else None
                    want = ('fld', ('p', 'a1'), 0, fs['changes'])
                    if q is None or base.has_u(q[0]):
                        R.undecided('splitting starts at the first change', key)
                        continue
                    R.check('splitting starts at the first change', q[0] == want, f'{key} script', 'hunks are made from something else than the script')
                    base.oblige(R, I, s, 'splitting starts at the first change', IP.feq(add(w[2], add(q[1], w[1][2]))), f'{key} start', 'splitting does not start at the first change')
                    base.oblige(R, I, s, 'splitting starts at the first change', IP.feq(sub(sub(w[3], w[2]), var(atom(('len', want), 0, LA.MAX)))), f'{key} end', 'splitting does not go on to the last change')
                elif w[0] == 'int':
                    base.oblige(R, I, s, 'the context requested is the one used', IP.feq(sub(w[1], cx[1])), key, 'another amount of context than requested is used')
                elif w[0] == 'agg' and tyname(w[1]) == 'Option':
                    R.check('splitting starts at the first change', w[2] == 0, f'{key} stash', 'context is kept before the first change')
                elif x['name'] in ('before', 'after') and x['name'] in fs:
                    t2 = MO.content(I, s, w)
                    R.check('the hunk refers to both inputs', t2 == ('fld', ('p', 'a1'), 0, fs[x['name']]) or (None if t2 is None or base.has_u(t2) else False), f'{key} {x["name"]}', f'hunks do not refer to the {x["name"]} input')
        R.add_interp(I)


def stored(R, p):
    """a diff holds one stored hunk for every hunk, in order, of the two files named"""
    for f in base.fns(p, 'new', 'pw_diff_lib'):
        rt = f.locals[0]
        t = rt.r['args'][0] if tyname(rt) == 'Result' else None
        if t is None or tyname(t) not in ('TextChangeDiff', 'ByteChangeDiff') or f.argc != 3:
            continue
        fs = {x['name']: (i, x['ty']) for i, x in enumerate(t.r['variants'][0]['fields'])}
        key = f'{tyname(t)}::new'
        I = IP.Interp(p)
        st = IP.State()
        src = ('p', 'hunks')
        name = 'every hunk is stored in the diff, in order'
        seen = {}

        def hook(I, st, c, args, crt):
            g = p.fns.get(c.key)
            if g is None or g.crate != 'pw_diff_lib':
                return None
            if g.name == 'next' and args and MO.iter_loc(I, st, args[0])[1][0] == 'iter':
                return MO.m_next(I, st, c, args, crt)
            if g.name == 'read' and tyname(g.locals[0]) == 'Result':
                return MO.fallible(I, st, 'read', [], crt, ('sym', ('read', MO.content(I, st, args[0])), crt.r['args'][0]))
            if g.name == 'new' and tyname(g.locals[0]) == 'Changes':
                ts = tuple(MO.content(I, st, a) for a in args)
                seen['inputs'] = ts
                return [(st, ('sym', ('changes',) + ts, crt))]
            if g.name == 'change_clumps':
                cx = I.strip(st, args[1])
                seen['ctx'] = cx[1] if cx[0] == 'int' else None
                seen['of'] = MO.content(I, st, args[0])
                return [(st, ('iter', ('opq', src, None), ZERO, var(atom(('len', src), 0, LA.MAX))))]
            if g.name == 'from' and tyname(g.locals[1]) == 'ChangeClump':
                return [(st, ('sym', ('stored', MO.content(I, st, args[0])), crt))]
            return None
        I.prehook = hook
        cx = IP.mk_sym(('p', 'context'), f.locals[3])
        n_ok = 0
        for s, v in I.exec_fn(st, f, [base.arg(I, st, f.locals[1], 'a1'), base.arg(I, st, f.locals[2], 'a2'), cx]):
            v = I.strip(s, v)
            if v[0] != 'agg' or v[2] == 1:
                continue
            n_ok += 1
            d = I.strip(s, v[3][0])
            cl = I.field(s, d, fs['clumps'][0], 0) if 'clumps' in fs else None
            n = I.seqlen(s, cl) if cl is not None else None
            if n is None or 'ctx' not in seen or 'inputs' not in seen:
                R.undecided(name, key)
                continue
            if s.ent_eq(sub(n, var(atom(('len', src), 0, LA.MAX)))) or base.exact(IP.feq(n)):
                base.oblige(R, I, s, name, IP.feq(sub(n, var(atom(('len', src), 0, LA.MAX)))), f'{key} number', 'not every hunk is stored in the diff')
            else:
                R.undecided(name, f'{key} number')
            k = var(atom(('p', 'k'), 0, LA.MAX))
            s2 = s.copy()
            s2.ge(addc(sub(n, k), -1))
            if not s2.cons.bad:
                e = MO.content(I, s2, I.elem(s2, cl, k))
                want = ('stored', ('elem', src, s2.canon(k)))
                R.check(name, e == want or (None if e is None or base.has_u(e) else False), f'{key} order', 'hunks are not stored in order')
            if seen['ctx'] is not None:
                base.oblige(R, I, s, 'the context requested is the one used', IP.feq(sub(seen['ctx'], cx[1])), key, 'another amount of context than requested is used')
            for i, (tm, pn) in enumerate(zip(seen['inputs'], ('a1', 'a2'))):
                okk = isinstance(tm, tuple) and tm and tm[0] == 'read' and isinstance(tm[1], tuple) and tm[1][:3] == ('file', 'open', (('p', pn),))
                other = isinstance(tm, tuple) and tm and tm[0] == 'read' and isinstance(tm[1], tuple) and tm[1][:2] == ('file', 'open')
                R.check('the inputs compared are the files named', True if okk else (False if other else None), f'{key} {i}', 'the diff is computed from another file than named')
        if not n_ok:
            R.undecided(name, f'{key}: no success')
        R.add_interp(I)


def c12(R):
    R.rule('one call of the splitting iterator, from any state it can be in and for any script: what is put in the hunk is followed item by item against the script')
    R.rule('the state left for the next call is again one of those analysed (induction over the hunks); a diff stores each hunk once and in order')
    p = mir.load()
    n = 0
    for f in base.fns(p, 'next', 'pw_diff_lib'):
        if (base.selfname(f) or '').endswith('ChangeClumpIter') and f.locals[1].r['inner'].r['args'][-1].name in ('alloc::string::String', 'u8'):
            n += 1
            sp = Split(R, p, f)
            if sp.ok:
                sp.run()
            else:
                R.undecided('shape', f.key)
    if n != 2:
        R.undecided('anchor', f'ChangeClumpIter::next: {n}')
    construct(R, p)
    stored(R, p)
