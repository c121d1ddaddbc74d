"""C11: the common run found is common."""
import os
import time

from .. import mir, interp as IP, lin as LA, models as MO, join as JN
from ..lin import var, const, add, sub, addc, neg, atom, ZERO
from . import base
from .differ import Gen, drop, generators, gname, short, small, pick
from .engine import tyname
from .script import lin, BIG

IX = 'positions'
MANY = 130
CUR = ('G', 'l.cur')        # end of the last item of the after side looked up
INSIDE = 'the run found lies inside the ranges searched'
EQUAL = 'the run found is the same on both sides'
NONE = 'a run found is not empty'
ENDS = 'a search ends with a result'
LONG = 'no longer run is missed'


def walk(v, out, pred):
    x = pred(v)
    if x is not None:
        out.append(x)
    if v[0] == 'agg':
        for y in v[3]:
            walk(y, out, pred)


def held(st, ty):
    """the runs held in variables"""
    out = []
    for v in st.mem.values():
        walk(v, out, lambda v: tuple(x[1] for x in v[3]) if v[0] == 'agg' and v[1] is ty and all(x[0] == 'int' for x in v[3]) else None)
    return list(dict.fromkeys(out))


def entries(st):
    """the arbitrary entries of the maps held"""
    out = []
    for v in st.mem.values():
        walk(v, out, lambda v: v[3] if v[0] == 'map' and v[3] is not None else None)
    return list(dict.fromkeys(out))


def about(t):
    """does a term speak of the positions of an item?"""
    if not isinstance(t, tuple):
        return False
    if t and t[0] == IX:
        return True
    return any(about(LA.term_of(i)) for i, _ in t[1]) if JN.is_lin(t) else any(about(x) for x in t)


def rename(st, th):
    """put other names in the place of some quantities"""
    for l, v in list(st.mem.items()):
        st.mem[l] = JN.subst_term(v, th, {})
    old = st.cons
    st.cons = LA.Cons()
    for i, l in old.eq.items():
        st.eq(JN.subst_lin(sub(var(i), l), th, {}))
    for g in old.ge:
        st.ge(JN.subst_lin(g, th, {}))
    for g in old.ne:
        st.ne(JN.subst_lin(g, th, {}))
    st.facts = frozenset(JN.subst_term(f, th, {}) for f in st.facts)


class Lcs:
    def __init__(self, R, p, f):
        self.R, self.p, self.f = R, p, f
        self.key = f'search {short(gname(f))}'
        self.runty = next((t for n, t in p.types.items() if n.endswith('common_subsequence::CommonSubsequence')), None)

    def hook(self, I, st, c, args, rt):
        """the occurrence index: the positions of an item of the after side in the before side (C21)"""
        if not pick(c, self.p, 'indices'):
            return None
        t = MO.content(I, st, args[1])
        if t is None or t[0] != 'elem' or t[1] != self.B:
            self.R.undecided(EQUAL, f'{self.key}: the item looked up')
            return None
        x = MO.content(I, st, args[0])
        want = self.index
        if want is not None and x != want:
            self.R.undecided(EQUAL, f'{self.key}: the index asked')
            return None
        st.mem[CUR] = ('int', addc(st.canon(t[2]), 1))
        if self.wit is not None:
            return self.known(I, st, st.canon(t[2]), rt)
        s1, s2 = st.copy(), st.copy()
        vt = rt.r['args'][0].r['inner'] if rt is not None and rt.r.get('args') else None
        v = IP.mk_sym((IX, s2.canon(t[2])), vt)
        if self.few:
            s2.eq(addc(I.seqlen(s2, v), -1))
        return [(s1, MO.none(rt)), (s2, MO.some(rt, ('refv', v)))]

    def known(self, I, st, i, rt):
        """an item of the run known to be common is found where that run has it, and perhaps elsewhere"""
        wb, wa, wn = self.wit
        vt = rt.r['args'][0].r['inner'] if rt is not None and rt.r.get('args') else None
        out = []
        for s in st.assume(IP.fge(sub(i, wa)), True):
            for s in s.assume(IP.fge(addc(sub(add(wa, wn), i), -1)), True):
                v = IP.mk_sym((IX, s.canon(i)), vt)
                if self.many == 'places':
                    s2 = s.copy()
                    s2.eq(addc(I.seqlen(s2, v), -MANY))
                    out.append((s2, MO.some(rt, ('refv', v))))
                    continue
                for n in range(1, self.places + 1):
                    for q in range(n):
                        s2 = s.copy()
                        s2.eq(addc(I.seqlen(s2, v), -n))
                        js = [self.place(I, s2, v, k) for k in range(n)]
                        if None in js:
                            self.R.undecided(LONG, f'{self.key}: the places of an item')
                            continue
                        s2.eq(sub(js[q], add(wb, sub(i, wa))))
                        if not s2.cons.bad:
                            out.append((s2, MO.some(rt, ('refv', v))))
        rest = st.assume(IP.fge(sub(i, wa)), False)
        for s in st.assume(IP.fge(sub(i, wa)), True):
            rest = rest + s.assume(IP.fge(addc(sub(add(wa, wn), i), -1)), False)
        for s in rest:
            if s.cons.bad:
                continue
            out.append((s.copy(), MO.none(rt)))
            v = IP.mk_sym((IX, s.canon(i)), vt)
            for n in range(1, self.places + 1):
                s2 = s.copy()
                s2.eq(addc(I.seqlen(s2, v), -n))
                if None not in [self.place(I, s2, v, k) for k in range(n)]:
                    out.append((s2, MO.some(rt, ('refv', v))))
        return out

    def place(self, I, st, v, k):
        """one of the (ascending) places of an item"""
        j = I.elem(st, v, const(k))
        j = I.strip(st, j) if j is not None else None
        if j is None or j[0] != 'int':
            return None
        st.ge(j[1])
        st.ge(addc(sub(self.gen.len['before'], j[1]), -1))
        if k:
            b = self.place(I, st, v, k - 1)
            st.ge(addc(sub(j[1], b), -1))
        return j[1]

    def touched(self, I, st, seq, idx, v):
        if seq[0] not in ('sym', 'isym') or seq[1][0] != IX:
            return
        v = I.strip(st, v)
        if v[0] != 'int':
            return
        j = v[1]
        st.ge(j)
        small(st, j)
        if self.many == 'places':
            # all but the last of the many places come before the range searched
            i = st.canon(idx)
            if i[1]:
                I.unk('a place of an item')
            elif i[0] < MANY - 1:
                st.ge(addc(sub(self.rect[0], j), -1))
            else:
                st.eq(sub(j, add(self.wit[0], sub(seq[1][1], self.wit[1]))))
        st.ge(addc(sub(self.gen.len['before'], j), -1))
        a = seq[1][1]
        st.facts = st.facts | {('run', self.A, st.canon(j), self.B, st.canon(a), const(1))}

    def back(self, I, st, d, head):
        """keep what is known of the values still held, not how they came about"""
        if self.few:
            return
        e = []
        for q in held(st, self.runty):
            e.append(True if st.ent_ge(addc(q[2], -1)) else False if st.ent_eq(q[2]) else None)
        st.ghost['some'] = tuple(sorted(e, key=str))
        _, facts = self.keep(I, st)
        new = frozenset(('run', f[1], st.canon(f[2]), f[3], st.canon(f[4]), st.canon(f[5])) for f in facts if st.ent_run(*f[1:]))
        live = set()
        for l, v in list(st.mem.items()):
            if l == CUR:
                st.mem[l] = ('int', st.canon(v[1]))
            JN.term_atoms(st.mem[l], live)
        for f in new:
            JN.term_atoms(f, live)
        gone = {i for i in st.cons.atoms() if i not in live and about(LA.term_of(i))}
        drop(st, gone)
        st.facts = frozenset(f for f in st.facts if f[0] != 'run') | new
        # a position read from the index is a number like any other from here on
        th = {}
        for i in sorted(live):
            t = LA.term_of(i)
            if t[0] == 'elem' and about(t):
                lo, hi = LA.RANGE[i]
                th[i] = var(atom(('u', 'position', I.newentry()), lo, hi, True))
        if th:
            rename(st, th)

    def keep(self, I, st):
        """what is worth knowing of the runs and of the lengths held"""
        lins, facts = [], []
        bl, bh, al, ah = self.rect
        cur = st.mem[CUR][1]
        for b, a, n in held(st, self.runty):
            lins += [addc(n, -1), sub(b, bl), sub(bh, add(b, n)), sub(a, al), sub(ah, add(a, n)), sub(cur, add(a, n))]
            facts.append(('run', self.A, b, self.B, a, n))
        for k, v in entries(st):
            lins += [addc(v, -1), sub(addc(k, 1), add(v, bl)), addc(sub(bh, k), -1)]
            for e in (cur, addc(cur, -1)):
                lins.append(sub(e, add(v, al)))
                facts.append(('run', self.A, addc(sub(k, v), 1), self.B, sub(e, v), v))
        return lins, facts

    def run(self, few=False, seek=False, wit=False, places=1, items=3, many=None):
        """few: at most three items are searched for, each found at one place at most (followed without any approximation)"""
        R, f = self.R, self.f
        self.few, self.seek, self.places = few, seek, places
        self.wit, self.many = None, many
        I = IP.Interp(self.p)
        I.cap = 20000 if wit else 2000 if few else 200
        if wit:
            I.max_steps = 8000000
        I.peel = MANY + 5 if many else 5 if few else 2
        deep = os.environ.get('VERIF_TIER') == 'thorough'
        I.deadline = time.time() + (40 if many else 80 if wit and not deep else 380)
        I.exact_maps = wit
        st = IP.State()
        self.gen = Gen(I, st, f)
        if not self.gen.ok or self.runty is None:
            R.undecided('anchor', 'generator fields')
            return
        self.A, self.B = I.seqid(self.gen.seq['before'])[0], I.seqid(self.gen.seq['after'])[0]
        self.index = None
        I.seqinv.append(self.touched)
        I.prehook = self.hook
        I.on_panic = self.panics
        I.on_back = self.back
        I.templates = self.keep
        st.ghost['some'] = ()
        args, rect = [('refv', self.gen.v)], []
        for i, side in ((2, 'before'), (3, 'after')):
            v = base.arg(I, st, f.locals[i], f'{side}_range')
            args.append(v)
            lo, hi = (lin(I, st, I.field(st, I.strip(st, v), j, 0)) for j in range(2))
            small(st, lo)
            small(st, hi)
            st.ge(sub(hi, lo))
            st.ge(sub(self.gen.len[side], hi))
            if few and side == 'after':
                st.ge(addc(sub(lo, hi), items))
            rect += [lo, hi]
        self.rect = rect
        if wit:
            b, a, n = (var(atom(('p', f'known run {x}'), 0, LA.MAX)) for x in ('before', 'after', 'length'))
            st.ge(addc(n, -1))
            st.ge(sub(b, rect[0]))
            st.ge(sub(rect[1], add(b, n)))
            st.ge(sub(a, rect[2]))
            st.ge(sub(rect[3], add(a, n)))
            st.facts = st.facts | {('run', self.A, st.canon(b), self.B, st.canon(a), st.canon(n))}
            self.wit = (b, a, n)
            if many:
                st.eq(addc(n, -items))
                st.eq(sub(rect[2], a))
                st.eq(sub(rect[3], add(a, n)))
        st.mem[CUR] = ('int', rect[2])
        try:
            rs = I.exec_fn(st, f, args)
        except IP.Stop:
            R.undecided(EQUAL, f'{self.key}: analysis budget')
            rs = []
        for s, v in rs:
            v = I.strip(s, v)
            alts = MO.variant_split(I, s, v)
            if alts is None:
                R.undecided(EQUAL, f'{self.key}: the result')
                continue
            for s2, x in alts:
                if x[1].r['variants'][x[2]]['name'] == 'Some':
                    self.found(I, s2, I.strip(s2, x[3][0]), rect)
                elif self.wit is not None:
                    if not s2.cons.bad:
                        exact = s2.wid == 0 and not I.unmodelled
                        (R.violate if exact else R.undecided)(LONG, self.key, *(['nothing is reported although there is a common run'] if exact else []))
                else:
                    R.ok(NONE)
        R.add_interp(I)
        if self.wit is not None:
            for k in I.unmodelled:
                R.undecided('modelled calls', k)

    def panics(self, I, st, fn, kind, line, info):
        if I.silent or st.cons.bad or not self.seek or kind.startswith(('Misaligned', 'Null')):
            # the last two cannot happen in safe code
            return
        f = short(getattr(fn, 'path', str(fn)))
        if st.wid == 0 and not I.unmodelled and (info is None or base.exact(info[0])):
            self.R.violate(ENDS, f'{self.key} {f} {kind}', f'the search for a common run can panic: {kind} in {f}')
        else:
            self.R.undecided(ENDS, f'{self.key} {f} {kind}')

    def found(self, I, s, r, rect):
        R = self.R
        if self.seek:
            R.ok(ENDS)
            return
        if I.unmodelled:
            # something on the way is not known exactly: nothing is called wrong
            s = s.copy()
            s.wid = max(s.wid, 1)
        b, a, n = (lin(I, s, I.field(s, r, i, 0)) for i in range(3))
        if None in (b, a, n):
            R.undecided(EQUAL, f'{self.key}: the run found')
            return
        if self.wit is not None:
            base.oblige(R, I, s, LONG, IP.fge(sub(n, self.wit[2])), self.key, 'the run reported is shorter than another common run')
            return
        base.oblige(R, I, s, NONE, IP.fge(addc(n, -1)), self.key, 'an empty run is reported')
        base.oblige(R, I, s, INSIDE, IP.fand(IP.fge(sub(b, rect[0])), IP.fge(sub(rect[1], add(b, n)))), f'{self.key} before', 'the run found reaches beyond the range searched on the before side')
        base.oblige(R, I, s, INSIDE, IP.fand(IP.fge(sub(a, rect[2])), IP.fge(sub(rect[3], add(a, n)))), f'{self.key} after', 'the run found reaches beyond the range searched on the after side')
        base.oblige(R, I, s, EQUAL, ('run', self.A, s.canon(b), self.B, s.canon(a), s.canon(n)), self.key, 'items of the run found are not known to be the same')


def c11(R):
    R.rule('the search in one pair of ranges, for arbitrary inputs and ranges inside them: what is known of the lengths kept for each position is followed from item to item')
    p = mir.load()
    fs = generators(p, 'longest_common_subsequence')
    for f in fs:
        Lcs(R, p, f).run(True)
    for f in fs:
        Lcs(R, p, f).run()
    if len(fs) < 2:
        R.undecided('anchor', 'longest_common_subsequence')


def c28(R):
    R.rule('the search is followed in ranges that have an arbitrary common run in common (its items are found where that run has them, and at other places): what is reported must be at least as long')
    p = mir.load()
    fs = generators(p, 'longest_common_subsequence')
    deep = os.environ.get('VERIF_TIER') == 'thorough'
    for f in fs:
        for places, items in ((1, 4), (2, 3), (3, 2)) if deep else ((1, 3), (2, 2)):
            Lcs(R, p, f).run(True, wit=True, places=places, items=items)
        # one very long run, and one item with very many places
        Lcs(R, p, f).run(True, wit=True, items=MANY, many='run')
        Lcs(R, p, f).run(True, wit=True, items=1, many='places')
    if len(fs) < 2:
        R.undecided('anchor', 'longest_common_subsequence')
