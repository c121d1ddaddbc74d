"""C29: the search for a displaced hunk stops at the nearest place where it matches."""
import time

from .. import mir, interp as IP, lin as LA, models as MO, join as JN
from ..lin import var, const, add, sub, addc, neg, atom, ZERO
from . import base
from .clump import Hunk, Target, find, off_value, bool_
from .engine import opt_payload

NEAR = 'nothing nearer matches'
MISS = 'a place where the hunk matches is found'


def ints(st):
    """the numbers held in variables"""
    out = []

    def go(v):
        if not isinstance(v, tuple) or not v:
            return
        if v[0] == 'int':
            out.append(v[1])
        elif v[0] == 'iter':
            for x in v[1:]:
                if JN.is_lin(x):
                    out.append(x)
                else:
                    go(x)
        elif v[0] in ('agg', 'gen') or isinstance(v[0], (tuple, str)):
            for x in v:
                if JN.is_lin(x):
                    out.append(x)
                elif isinstance(x, tuple):
                    go(x)
    for v in st.mem.values():
        go(v)
    return list(dict.fromkeys(out))


FAR = 1025


class Search:
    """the search, in a target which holds the hunk at some displacement (an arbitrary one)"""

    def __init__(self, R, p, f, rev, nxt, ahead, kind, few, far=False):
        self.R, self.p, self.f, self.rev = R, p, f, rev
        self.nxt, self.ahead, self.kind, self.few, self.far = nxt, ahead, kind, few, far
        self.key = f'{f.name} {"reverse" if rev else "forward"} {"ahead" if ahead else "behind"}{" reduced" if kind else ""}{" before another" if nxt else ""}{" far away" if far else ""}'
        self.asked = 0

    def hook(self, I, st, c, args, rt):
        f = self.p.fns.get(c.key)
        if f is None or f.name not in ('will_apply', 'is_already_applied') or not (base.selfname(f) or '').endswith('TextChangeClump') or len(args) != 4:
            return None
        off = I.strip(st, args[2])
        r = I.strip(st, args[3])
        r = st.decide(r[1]) if r[0] == 'bool' else None
        if off[0] != 'int' or r is None or MO.content(I, st, args[0]) != self.h.v[1] or MO.content(I, st, args[1]) != ('p', 'target'):
            I.unk('arguments of a match')
            return None
        if (r if f.name == 'will_apply' else not r) != self.rev:
            I.unk('side of a match')
            return None
        self.asked += 1
        if I.unmodelled and self.far:
            raise IP.Stop('unmodelled')
        here = IP.feq(sub(off[1], add(self.off, self.w)))
        out = []
        wty = opt_payload(rt)
        for s in st.assume(here, True):
            if not s.cons.bad:
                out.append((s, ('agg', rt, 1, (self.reduced(wty) if self.kind else self.clean(wty),))))
        for s in st.assume(here, False):
            if s.cons.bad:
                continue
            out.append((s, ('agg', rt, 0, ())))
            if self.far:
                continue
            s2 = s.copy()
            # a match has room
            s2.ge(addc(add(self.start, off[1]), 0))
            s2.ge(sub(self.tg.len, add(add(self.start, off[1]), self.n)))
            if not s2.cons.bad:
                out.append((s2, ('agg', rt, 1, (self.clean(wty),))))
        return out

    def clean(self, ty):
        i = next(i for i, v in enumerate(ty.r['variants']) if not v['fields'])
        return ('agg', ty, i, ())

    def reduced(self, ty):
        i, v = next((i, v) for i, v in enumerate(ty.r['variants']) if v['fields'])
        return ('agg', ty, i, (('agg', v['fields'][0]['ty'], 0, tuple(('int', x) for x in self.k)),))

    def keep(self, I, st):
        out = []
        for x in ints(st):
            for y in (self.w, neg(self.w)):
                out += [sub(y, x), addc(sub(y, x), -1)]
        return out, []

    def run(self):
        R, f = self.R, self.f
        I = IP.Interp(self.p)
        I.cap = 600
        I.peel = FAR + 5 if self.far else 4 if self.few else 2
        if self.far:
            I.max_steps = 10 ** 7
        I.deadline = time.time() + 200
        st = IP.State()
        ty = f.locals[1].r['inner']
        self.h = h = Hunk(I, st, ty)
        if not h.ok or f.argc != 5:
            R.undecided('shape', f.path)
            return
        self.tg = tg = Target(I, st, f.locals[2], 'a2')
        if tg.consumed is None:
            R.undecided('shape', f.path)
            return
        args = [('refv', h.v), tg.value]
        look = self.rev
        self.start, _, self.n = h.get(True, look)
        off = off_value(I, st, f.locals[4])
        self.off = off[1]
        w = IP.mk_sym(('p', 'displacement'), f.locals[4])
        self.w = w[1]
        st.ge(addc(self.w if self.ahead else neg(self.w), -1))
        if self.few:
            st.ge(addc(neg(self.w) if self.ahead else self.w, 2))
        at = add(add(self.start, self.off), self.w)
        st.ge(at)
        st.ge(sub(at, tg.consumed))
        room = sub(tg.len, add(at, self.n))
        if self.far:
            # the hunk has no context, the other direction ends at once
            st.eq(addc(self.w, -FAR if self.ahead else FAR))
            for c in h.ctx:
                st.eq(c)
            here = add(self.start, self.off)
            st.eq(sub(tg.consumed, here if self.ahead else at))
            st.eq(sub(tg.len, add(add(here, self.n), const(FAR if self.ahead else 0))))
        sts = [st]
        if self.kind:
            self.k = k = [var(atom(('p', f'given up {i}'), 0, 255)) for i in range(2)]
            for x, c in zip(k, h.ctx):
                st.ge(sub(c, x))
            room = add(room, k[1])
            # not all of the context is given up
            a, b = st.copy(), st.copy()
            a.ge(addc(sub(h.ctx[0], k[0]), -1))
            b.eq(sub(h.ctx[0], k[0]))
            b.ge(addc(sub(h.ctx[1], k[1]), -1))
            sts = [a, b]
        for st in sts:
            st.ge(room)
            if self.nxt:
                h2 = Hunk(I, st, ty, ('p', 'nx'))
                st.ge(sub(add(h2.get(True, look)[0], self.off), add(at, self.n)))
                third = ('agg', f.locals[3], 1, (('refv', h2.v),))
            else:
                third = ('agg', f.locals[3], 0, ())
            if st.cons.bad:
                continue
            self.one(I, st, args + [third, off, bool_(self.rev)])
        R.add_interp(I)
        for k in I.unmodelled:
            R.undecided('modelled calls', k)

    def one(self, I, st, args):
        R = self.R
        I.prehook = self.hook
        if not self.far:
            I.templates = self.keep
        try:
            rs = I.exec_fn(st, self.f, args)
        except IP.Stop:
            R.undecided(NEAR, f'{self.key}: analysis budget')
            return
        if not self.asked:
            R.undecided('anchor', f'{self.key}: how a match is established')
            return
        for s, v in rs:
            if s.cons.bad:
                continue
            exact = s.wid == 0 and not I.unmodelled
            for s2, x in MO.variant_split(I, s, I.strip(s, v)) or [(s, None)]:
                if x is None:
                    R.undecided(NEAR, f'{self.key}: the result')
                    continue
                if x[2] == 0:
                    msg = 'the search ends without a result although the hunk matches within the part it has to search'
                    R.violate(MISS, self.key, msg) if exact else R.undecided(MISS, f'{self.key}: {msg}')
                    continue
                R.ok(MISS)
                t = I.strip(s2, x[3][0])
                d = I.strip(s2, I.field(s2, t, 0, 0))
                if d[0] != 'int':
                    R.undecided(NEAR, f'{self.key}: the displacement')
                    continue
                far = self.w if self.ahead else neg(self.w)
                if not exact:
                    s2 = s2.copy()
                    s2.wid = max(s2.wid, 1)
                base.oblige(R, I, s2, NEAR, IP.fand(IP.fge(sub(far, d[1])), IP.fge(add(far, d[1]))), self.key, 'a place further away is reported than one where the hunk matches')


def c29(R):
    R.rule('the search is followed in a target in which the hunk matches at one displacement about which nothing else is known: it must end with a result, no further away')
    R.assume.append('the part to be searched: the hunk (with its context) starts at or after what is consumed, and ends at or before the expected start of the hunk that follows')
    p = mir.load()
    fs = find(p, 'will_apply_nearby', 'TextChangeClump')
    if not fs:
        R.undecided('anchor', 'will_apply_nearby')
    for f in fs:
        for rev in (False, True):
            for nxt in (False, True):
                for ahead in (True, False):
                    for kind in (0, 1) if not nxt else (0,):
                        for few in (True, False):
                            Search(R, p, f, rev, nxt, ahead, kind, few).run()
            for ahead in (True, False):
                Search(R, p, f, rev, False, ahead, 0, False, True).run()
