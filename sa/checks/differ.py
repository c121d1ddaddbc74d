"""C10, C11, C21, C25: computing an edit script."""
import os
from .. import mir, interp as IP, lin as LA, models as MO, join as JN
from ..lin import var, const, add, sub, addc, neg, atom, ZERO
from . import base
from .engine import tyname, opt_payload
from .script import parts, changes_of, lin, BIG

RUNS = ('p', 'runs')


def gname(f):
    """name of the item type a generator works on"""
    t = f.locals[1].r['inner'] if f.locals[1].k == 'ref' else f.locals[1]
    return t.r['args'][0].name


def generators(p, name):
    return [f for f in base.fns(p, name, 'pw_diff_lib') if f.argc and (base.selfname(f) or '').endswith('ChangesGenerator') and gname(f) in ('alloc::string::String', 'u8')]


def short(n):
    return n.split('::')[-1]


def small(st, x):
    """a position in a sequence: at most BIG"""
    if x[0] == 0 and len(x[1]) == 1 and x[1][0][1] == 1:
        i = x[1][0][0]
        lo, hi = LA.RANGE.get(i, (None, None))
        LA.RANGE[i] = (lo, BIG if hi is None else min(hi, BIG))
    else:
        st.ge(addc(neg(x), BIG))


class Gen:
    """a generator for two arbitrary sequences"""

    def __init__(self, I, st, f):
        self.f = f
        t = f.locals[1].r['inner']
        self.ty = t
        self.fs = {x['name']: (i, x['ty']) for i, x in enumerate(t.r['variants'][0]['fields'])}
        self.v = IP.mk_sym(('p', 'self'), t)
        self.ok = {'before', 'after'} <= set(self.fs)
        if not self.ok:
            return
        self.seq, self.len = {}, {}
        for k in ('before', 'after'):
            q = I.strip(st, I.field(st, self.v, self.fs[k][0], 0))
            q = I.strip(st, I.field(st, q, 0, 0))
            self.seq[k] = q
            self.len[k] = I.seqlen(st, q)
            small(st, self.len[k])


def pick(c, f, name):
    """is the call to the method `name` of the generator?"""
    g = f.fns.get(c.key) if c.key else None
    return g is not None and g.crate == 'pw_diff_lib' and g.name == name


# ---------------------------------------------------------------------------------------------------- C10
# how much of either side the script covers so far; end of the last run taken from the list; number of runs taken
TB, TA, PB, PA, PK = (('G', f'd.{n}') for n in ('tb', 'ta', 'pb', 'pa', 'pk'))
TILE = 'each change starts where the one before it ended, on both sides'
LABEL = 'a change covers what its kind says'
KEEP = 'an unchanged region is exactly one of the runs found'
ENDS = 'the script ends at the end of both inputs'


class Tile:
    def __init__(self, R, p, f, few=None):
        self.R, self.p, self.f, self.few = R, p, f, few
        self.key = f'generate {short(gname(f))}'

    def touched(self, I, st, seq, idx, v):
        if seq[0] not in ('sym', 'isym') or seq[1] != RUNS:
            return
        v = I.strip(st, v)
        b, a, n = (lin(I, st, I.field(st, v, i, 0)) for i in range(3))
        if None in (b, a, n):
            return
        for x in (b, a, n):
            small(st, x)
        # the contract of the list: non-empty runs inside both inputs, in order and apart (C11, C25)
        st.ge(addc(n, -1))
        st.ge(sub(self.gen.len['before'], add(b, n)))
        st.ge(sub(self.gen.len['after'], add(a, n)))
        k = st.mem[PK][1]
        if st.ent_eq(sub(idx, k)):
            st.ge(sub(b, st.mem[PB][1]))
            st.ge(sub(a, st.mem[PA][1]))
            st.mem[PB], st.mem[PA], st.mem[PK] = ('int', add(b, n)), ('int', add(a, n)), ('int', addc(k, 1))

    def hook(self, I, st, c, args, rt):
        if pick(c, self.p, 'longest_common_subsequences'):
            self.asked = True
            v = IP.mk_sym(RUNS, rt)
            return [(st, v)]
        return None

    def event(self, I, st, ev):
        g = st.ghost
        if ev[0] == 'push' and not g.get('lost'):
            vec, v = ev[1], I.strip(st, ev[2])
            if v[0] not in ('agg', 'sym') or tyname(v[1] if v[0] == 'agg' else v[2]) != 'Change':
                return
            if vec[0] != 'seq' or g.get('vec', vec[1]) != vec[1]:
                g['lost'] = True
                return
            g['vec'] = vec[1]
            q = parts(I, st, v) if v[0] == 'agg' else None
            if q is None:
                g['lost'] = True
                self.R.undecided(TILE, f'{self.key}: a change of unknown kind')
                return
            R, key = self.R, self.key
            base.oblige(R, I, st, TILE, IP.feq(sub(q[1], st.mem[TB][1])), f'{key} {q[0]} before', 'gap or overlap on the before side')
            base.oblige(R, I, st, TILE, IP.feq(sub(q[3], st.mem[TA][1])), f'{key} {q[0]} after', 'gap or overlap on the after side')
            lb, la = sub(q[2], q[1]), sub(q[4], q[3])
            for side, ln, kinds in (('before', lb, ('Delete', 'Replace', 'NoChange')), ('after', la, ('Insert', 'Replace', 'NoChange'))):
                if q[0] in kinds:
                    base.oblige(R, I, st, LABEL, IP.fge(addc(ln, -1)), f'{key} {q[0]} {side} empty', f'a {q[0]} without items of the {side} side')
                else:
                    base.oblige(R, I, st, LABEL, IP.feq(ln), f'{key} {q[0]} {side}', f'a {q[0]} with items of the {side} side')
            if q[0] == 'NoChange':
                k = addc(st.mem[PK][1], -1)
                if st.ent_ge(k):
                    r = IP.mk_sym(('elem', RUNS, st.canon(k)), self.runty)
                    b, a, n = (lin(I, st, I.field(st, r, i, 0)) for i in range(3))
                    f = IP.fand(IP.feq(sub(q[1], b)), IP.fand(IP.feq(sub(q[3], a)), IP.feq(sub(lb, n))))
                    base.oblige(R, I, st, KEEP, f, f'{key}', 'an unchanged region is not the run found')
                else:
                    base.oblige(R, I, st, KEEP, IP.fge(k), f'{key} none', 'an unchanged region without a run')
            st.mem[TB], st.mem[TA] = ('int', q[2]), ('int', q[4])
        elif ev[0] in ('pop', 'vecmut', 'sort', 'insert', 'leak') and not (len(ev) > 1 and isinstance(ev[1], tuple) and ev[1][:1] == ('seq',) and g.get('vec') not in (None, ev[1][1])):
            g['lost'] = True

    def run(self):
        R, f = self.R, self.f
        I = IP.Interp(self.p)
        I.cap = 200
        I.peel = 1
        st = IP.State()
        self.gen = Gen(I, st, f)
        if self.few is not None:
            # a short list of runs: every step is followed without approximation
            I.cap = 2000
            I.peel = self.few + 2
            st.ge(addc(neg(var(atom(('len', RUNS), 0, LA.MAX))), self.few))
        if not self.gen.ok:
            R.undecided('anchor', 'generator fields')
            return
        self.runty = next((t for n, t in self.p.types.items() if n.endswith('common_subsequence::CommonSubsequence')), None)
        I.seqinv.append(self.touched)
        I.prehook = self.hook
        I.on_event = self.event
        for c in (TB, TA, PB, PA, PK):
            st.mem[c] = ('int', ZERO)
        st.ghost['lost'] = False
        self.asked = False
        try:
            rs = I.exec_fn(st, f, [('refv', self.gen.v)])
        except IP.Stop:
            R.undecided(TILE, f'{self.key}: analysis budget')
            rs = []
        if not self.asked:
            R.undecided(KEEP, f'{self.key}: the runs are not those of the search')
        for s, v in rs:
            v = I.strip(s, v)
            if s.ghost.get('lost') or v[0] != 'seq' or s.ghost.get('vec', v[1]) != v[1]:
                R.undecided(TILE, f'{self.key}: not followed')
                continue
            base.oblige(R, I, s, ENDS, IP.feq(sub(self.gen.len['before'], s.mem[TB][1])), f'{self.key} before', 'the script does not cover the whole before side')
            base.oblige(R, I, s, ENDS, IP.feq(sub(self.gen.len['after'], s.mem[TA][1])), f'{self.key} after', 'the script does not cover the whole after side')
            n = s.mem[PK][1]
            base.oblige(R, I, s, KEEP, IP.feq(sub(var(atom(('len', RUNS), 0, LA.MAX)), n)), f'{self.key} all', 'runs found are left out of the script')
        R.add_interp(I)


def c10(R):
    R.rule('every change put in the script is compared with how far the script covers both inputs, for any list of runs that are in order and apart')
    R.rule('a script belongs to exactly the two inputs it was asked for')
    p = mir.load()
    fs = generators(p, 'generate')
    for f in fs:
        Tile(R, p, f).run()
        Tile(R, p, f, 4 if os.environ.get('VERIF_TIER') == 'thorough' else 3).run()
    if len(fs) < 2:
        R.undecided('anchor', 'generate')
    assembled(R, p)


def assembled(R, p):
    """Changes::new keeps the two inputs and the script made from them, in that order"""
    name = 'the script belongs to the inputs kept with it'
    seen = 0
    for f in base.fns(p, 'new', 'pw_diff_lib'):
        t = f.locals[0]
        if tyname(t) != 'Changes' or f.argc != 2 or t.r['args'][0].name not in ('alloc::string::String', 'u8'):
            continue
        seen += 1
        key = f'Changes<{short(t.r["args"][0].name)}>::new'
        fs = {x['name']: i for i, x in enumerate(t.r['variants'][0]['fields'])}
        I = IP.Interp(p)
        st = IP.State()
        made = []

        def hook(I, st, c, args, rt):
            if pick(c, p, 'generate_from'):
                return [(st, ('sym', ('index', MO.content(I, st, args[0])), rt))]
            if pick(c, p, 'generate'):
                g = I.strip(st, args[0])
                ty = p.fns[c.key].locals[1].r['inner']
                d = {x['name']: MO.content(I, st, I.field(st, g, i, 0)) for i, x in enumerate(ty.r['variants'][0]['fields'])}
                made.append(d)
                return [(st, ('sym', ('script', d.get('before'), d.get('after')), rt))]
            return None
        I.prehook = hook
        for s, v in I.exec_fn(st, f, [base.arg(I, st, f.locals[1], 'a1'), base.arg(I, st, f.locals[2], 'a2')]):
            v = I.strip(s, v)
            if not {'before', 'after', 'changes'} <= set(fs):
                R.undecided(name, key)
                continue
            for k, want in (('before', ('p', 'a1')), ('after', ('p', 'a2')), ('changes', ('script', ('p', 'a1'), ('p', 'a2')))):
                got = MO.content(I, s, I.field(s, v, fs[k], 0))
                R.check(name, got == want or (None if got is None or base.has_u(got) else False), f'{key} {k}', f'{k} is not that of the two inputs')
        for d in made:
            for k, ix in d.items():
                if k not in ('before', 'after'):
                    # any index kept beside the inputs is that of the before input
                    R.check(name, ix == ('index', ('p', 'a1')) or (None if ix is None or base.has_u(ix) or ix[0] != 'index' else False), f'{key} index', 'the occurrence index is that of another input')
        if not made:
            R.undecided(name, f'{key}: no script made')
        R.add_interp(I)
    if seen < 2:
        R.undecided('anchor', 'Changes::new')


# ---------------------------------------------------------------------------------------------------- C25
WORK, LEFT, FOUND, RAW = ('p', 'work'), ('p', 'left'), ('p', 'found'), ('p', 'raw')
WK = ('G', 's.work')                       # sub-problems taken so far
FK = ('G', 's.found')                      # searches made so far
QB, QA = ('G', 's.qb'), ('G', 's.qa')      # start of the last recorded run looked at
OB, OA = ('G', 's.ob'), ('G', 's.oa')      # end of the last run put in the list
PROG = 'a sub-problem lies inside the one it came from, is smaller, and is beside the run found'
ROOT = 'the search starts with the two whole inputs'
INSIDE = 'a search stays inside the sub-problem'
RECORD = 'every run found is recorded once, as found'
ORDER = 'runs are put in order before the script is built'
MERGE = 'runs are merged only when they touch on both sides'
APART = 'the runs of the list are in order and apart'


def mentions(t, what):
    if not isinstance(t, tuple):
        return False
    if t in what:
        return True
    return any(mentions(LA.term_of(i), what) for i, _ in t[1]) if JN.is_lin(t) else any(mentions(x, what) for x in t)


def drop(st, gone):
    """forget what is known of some quantities"""
    old = st.cons
    st.cons = LA.Cons()
    for i, l in old.eq.items():
        e = sub(var(i), l)
        if not any(j in gone for j, _ in e[1]):
            st.eq(e)
    for g in old.ge:
        if not any(j in gone for j, _ in g[1]):
            st.ge(g)
    for g in old.ne:
        if not any(j in gone for j, _ in g[1]):
            st.ne(g)


class Search:
    def __init__(self, R, p, f, want=None):
        self.R, self.p, self.f = R, p, f
        self.key = f'search {short(gname(f))}'
        self.runty = next((t for n, t in p.types.items() if n.endswith('common_subsequence::CommonSubsequence')), None)

    def ob(self, I, st, name, f, key, msg):
        base.oblige(self.R, I, st, name, f, f'{self.key} {key}', msg)

    def kind(self, ty):
        """what a vector of this item type is for"""
        if ty is None:
            return None
        if ty.k == 'tuple' and len(ty.r['elems']) == 2 and all(tyname(t) == 'Range' and 'pw_diff_lib' in t.name for t in ty.r['elems']):
            return 'work'
        return 'run' if tyname(ty) == 'CommonSubsequence' else None

    def vkind(self, I, st, ref):
        a, v = MO.vec_at(I, st, ref)
        if v is None or v[0] != 'seq':
            return None, None, None
        ty = v[2]
        if ty is None and v[5]:
            x = I.strip(st, v[5][0])
            ty = x[1] if x[0] == 'agg' else x[2] if x[0] == 'sym' else None
        return a, v, self.kind(ty)

    def rect(self, I, st, v):
        """positions of a pair of ranges"""
        v = I.strip(st, v)
        out = []
        for i in range(2):
            r = I.strip(st, I.field(st, v, i, 0))
            for j in range(2):
                out.append(lin(I, st, I.field(st, r, j, 0)))
        return None if None in out else out

    def run3(self, I, st, v):
        v = I.strip(st, v)
        r = [lin(I, st, I.field(st, v, i, 0)) for i in range(3)]
        return None if None in r else r

    def equal(self, b, a, n):
        return ('run', self.A, b, self.B, a, n)

    # ------------------------------------------------------------------
    def touched(self, I, st, seq, idx, v):
        if seq[0] == 'seq':
            if seq[3] != RAW:
                return
        elif seq[0] not in ('sym', 'isym') or seq[1] != RAW:
            return
        if st.ghost.get('phase') != 'sorted':
            return
        v = I.strip(st, v)
        q = self.run3(I, st, v)
        if q is None:
            return
        b, a, n = q
        for x in q:
            small(st, x)
        st.ge(addc(n, -1))
        st.ge(sub(self.gen.len['before'], add(b, n)))
        st.ge(sub(self.gen.len['after'], add(a, n)))
        f = ('run', self.A, st.canon(b), self.B, st.canon(a), st.canon(n))
        if not st.ent_run(self.A, b, self.B, a, n):
            st.facts = st.facts | {f}
        k = st.mem[PK][1]
        if st.ent_eq(sub(idx, k)):
            st.ge(sub(b, st.mem[PB][1]))
            st.ge(sub(a, st.mem[PA][1]))
            st.mem[QB], st.mem[QA] = ('int', b), ('int', a)
            st.mem[PB], st.mem[PA], st.mem[PK] = ('int', add(b, n)), ('int', add(a, n)), ('int', addc(k, 1))
            st.ghost['q'] = True
        elif st.ghost.get('q') is True and st.ent_eq(sub(addc(idx, 1), k)):
            st.eq(sub(b, st.mem[QB][1]))
            st.eq(sub(a, st.mem[QA][1]))
            st.eq(sub(add(b, n), st.mem[PB][1]))
            st.eq(sub(add(a, n), st.mem[PA][1]))

    # ------------------------------------------------------------------
    def hook(self, I, st, c, args, rt):
        if pick(c, self.p, 'longest_common_subsequence'):
            return self.searched(I, st, args, rt)
        if c.name in ('pop', 'pop_front', 'pop_back') and args and args[0][0] == 'ref':
            a, v, k = self.vkind(I, st, args[0])
            if k == 'work':
                return self.taken(I, st, a, v, rt)
        if 'sort' in c.name and args and args[0][0] == 'ref':
            a, v, k = self.vkind(I, st, args[0])
            if k == 'run':
                return self.ordered(I, st, c, a, v, args, rt)
        return None

    def cur(self, I, st):
        """the sub-problem searched: before start/end, after start/end"""
        return self.rect(I, st, IP.mk_sym(('elem', WORK, st.canon(addc(st.mem[WK][1], -1))), self.workty))

    def found(self, I, st):
        """the run found in it"""
        b, a, n = self.run3(I, st, IP.mk_sym(('elem', FOUND, st.canon(addc(st.mem[FK][1], -1))), self.runty))
        return b, add(b, n), a, add(a, n)

    def round(self, I, st, d, head):
        """the next round of the search starts afresh"""
        if st.ghost.get('phase') == 'sorted':
            self.settle(I, st)
            return
        if (d, head) != self.loop or st.ghost.get('phase') != 'search':
            return
        self.kept(st)
        st.ghost.update({'found': '-', 'rec': False, 'below': False, 'above': False})
        self.forget(st)

    def kept(self, st):
        """at the end of a round: the run found has been recorded"""
        if st.ghost.get('found') == 'yes' and st.ghost.get('rec') is False and not st.ghost.get('lost'):
            self.R.check(RECORD, False if st.wid == 0 else None, f'{self.key} dropped', 'a run found is not recorded')

    def settle(self, I, st):
        """keep what is known of the values still held, not how they came about"""
        st.ghost['all'] = st.ent_eq(sub(var(atom(('len', RAW), 0, LA.MAX)), st.mem[PK][1]))
        held = [(st.mem[QB][1], st.mem[QA][1], sub(st.mem[PB][1], st.mem[QB][1]))] + self.runs_held(st)
        facts = set()
        pb, pa = st.mem[PB][1], st.mem[PA][1]
        for b, a, n in held[1:]:
            if st.ent_eq(sub(add(b, n), pb)) and st.ent_eq(sub(add(a, n), pa)) and not st.ent_eq(sub(b, st.mem[QB][1])):
                # the last run looked at has become part of another: its own start is no longer needed
                st.ghost['q'] = False
                st.mem[QB], st.mem[QA] = ('int', ZERO), ('int', ZERO)
                st.mem[PB], st.mem[PA] = ('int', add(b, n)), ('int', add(a, n))
                del held[0]
                break
        for b, a, n in held:
            if st.ent_run(self.A, b, self.B, a, n):
                facts.add(('run', self.A, st.canon(b), self.B, st.canon(a), st.canon(n)))
        live = set()
        for l, v in list(st.mem.items()):
            if l in (PB, PA, QB, QA, OB, OA):
                # in the words the relations are stated in
                st.mem[l] = ('int', st.canon(v[1]))
            JN.term_atoms(st.mem[l], live)
        for q in self.runs_held(st):
            for x in q:
                live |= {i for i, _ in st.canon(x)[1]}
        gone = {i for i in st.cons.atoms() if i not in live and mentions(LA.term_of(i), (RAW,))}
        drop(st, gone)
        st.facts = frozenset(f for f in st.facts if f[0] != 'run') | facts

    def runs_held(self, st):
        out = []

        def walk(v):
            if v[0] == 'agg':
                if v[1] is self.runty and all(x[0] == 'int' for x in v[3]):
                    out.append(tuple(x[1] for x in v[3]))
                for x in v[3]:
                    walk(x)
            elif v[0] == 'seq':
                for x in v[5]:
                    walk(x)
        for v in st.mem.values():
            walk(v)
        return out

    def keep(self, I, st):
        """what is worth knowing of the runs held while the list is made"""
        if st.ghost.get('phase') != 'sorted':
            return (), ()
        g = {c: st.mem[c][1] for c in (OB, OA, PB, PA, QB, QA) if c in st.mem and st.mem[c][0] == 'int'}
        if len(g) < 6:
            return (), ()
        lins, facts = [sub(g[PB], g[OB]), sub(g[PA], g[OA])], []
        for b, a, n in self.runs_held(st) + [(g[QB], g[QA], sub(g[PB], g[QB]))]:
            lins += [sub(b, g[OB]), sub(a, g[OA]), addc(n, -1)]
            for x, y, side in ((b, g[PB], 'before'), (a, g[PA], 'after')):
                lins += [sub(y, add(x, n)), sub(self.gen.len[side], add(x, n))]
            facts.append(('run', self.A, b, self.B, a, n))
        return lins, facts

    def forget(self, st):
        drop(st, {i for i in st.cons.atoms() if mentions(LA.term_of(i), (WORK, FOUND, LEFT))})

    def taken(self, I, st, a, v, rt):
        at = [x for x in I.loopstack if x[0] == 0] or I.loopstack
        self.loop = at[-1] if at else None
        k = st.mem[WK][1]
        if st.ghost.get('phase') != 'search':
            st.ghost['lost'] = True
            return None
        if st.decide(IP.feq(k)) is True:
            # the first: what the search starts with
            n = I.seqlen(st, v)
            self.ob(I, st, ROOT, IP.feq(addc(n, -1)), 'number', 'the search does not start with one problem')
            if st.ent_ge(addc(n, -1)):
                r = self.rect(I, st, I.elem(st, v, ZERO))
                if r is None:
                    self.R.undecided(ROOT, self.key)
                else:
                    for x, w in zip(r, (ZERO, self.gen.len['before'], ZERO, self.gen.len['after'])):
                        self.ob(I, st, ROOT, IP.feq(sub(x, w)), 'whole', 'the search does not start with the two whole inputs')
        self.kept(st)
        s1, s2 = st.copy(), st.copy()
        k = s2.canon(k)
        self.workty = ety = opt_payload(rt)
        x = IP.mk_sym(('elem', WORK, k), ety)
        r = self.rect(I, s2, x)
        if r is None:
            return None
        for y in r:
            small(s2, y)
        for i, side in ((0, 'before'), (2, 'after')):
            s2.ge(sub(r[i + 1], r[i]))
            s2.ge(sub(self.gen.len[side], r[i + 1]))
        s2.mem[WK] = ('int', addc(k, 1))
        t = ('elem', LEFT, s2.canon(s2.mem[WK][1]))
        I.write(s2, a[1], a[2], ('seq', v[1], v[2], t, var(atom(('len', t), 0, LA.MAX)), (), ()))
        s2.ghost.update({'found': '', 'rec': False, 'below': False, 'above': False})
        # nothing is left: only after the first
        out = [(s2, MO.some(rt, x))]
        if st.decide(IP.feq(st.mem[WK][1])) is not True:
            out.append((s1, MO.none(rt)))
        return out

    def searched(self, I, st, args, rt):
        br, ar = (I.strip(st, x) for x in args[1:3])
        r = [lin(I, st, I.field(st, x, j, 0)) for x in (br, ar) for j in range(2)]
        if None in r:
            st.ghost['lost'] = True
            return None
        if st.ghost.get('found') != '':
            # searched twice, or outside the worklist
            st.ghost['lost'] = True
            return None
        c = self.cur(I, st)
        f = IP.fand(IP.fand(IP.fge(sub(r[0], c[0])), IP.fge(sub(c[1], r[1]))), IP.fand(IP.fge(sub(r[2], c[2])), IP.fge(sub(c[3], r[3]))))
        self.ob(I, st, INSIDE, f, 'range', 'a search goes beyond its sub-problem')
        self.ob(I, st, INSIDE, IP.fand(IP.fge(sub(r[1], r[0])), IP.fge(sub(r[3], r[2]))), 'valid', 'a search is made of a range that ends before it starts')
        s1, s2 = st.copy(), st.copy()
        s1.ghost['found'] = 'no'
        k = s2.canon(s2.mem[FK][1])
        x = IP.mk_sym(('elem', FOUND, k), self.runty)
        b, a, n = self.run3(I, s2, x)
        for y in (b, a, n):
            small(s2, y)
        s2.ge(addc(n, -1))
        for p0, lo, hi in ((b, r[0], r[1]), (a, r[2], r[3])):
            s2.ge(sub(p0, lo))
            s2.ge(sub(hi, add(p0, n)))
        for s in (s1, s2):
            s.mem[FK] = ('int', addc(k, 1))
        s2.ghost['found'] = 'yes'
        return [(s1, MO.none(rt)), (s2, MO.some(rt, x))]

    def ordered(self, I, st, c, a, v, args, rt):
        R = self.R
        if st.ghost.get('phase') != 'search' or st.ghost.get('raw', v[1]) != v[1]:
            st.ghost['lost'] = True
            return None
        s = st.copy()
        self.comparison(I, s, c, args)
        s.ghost.update({'phase': 'sorted', 'raw': v[1], 'found': '-', 'rec': False, 'below': False, 'above': False})
        self.forget(s)
        s.mem[WK], s.mem[FK] = ('int', const(1)), ('int', const(1))
        for l, w in list(s.mem.items()):
            # the worklist is not looked at any more
            if w[0] == 'seq' and self.kind(w[2]) == 'work':
                s.mem[l] = ('seq', w[1], w[2], LEFT, ZERO, (), ())
        n = var(atom(('len', RAW), 0, LA.MAX))
        I.write(s, a[1], a[2], ('seq', v[1], self.runty, RAW, n, (), ()))
        for cell in (PK, PB, PA, QB, QA, OB, OA):
            s.mem[cell] = ('int', ZERO)
        return [(s, IP.UNIT)]

    def parts(self, I, s, v):
        """the numbers that a key (a number or a tuple of some) is compared by"""
        w = I.strip(s, v)
        if w[0] == 'agg' and w[1] is not None and w[1].k == 'tuple':
            return [q for x in w[3] for q in self.parts(I, s, x)]
        if w[0] == 'agg' and w[1] is not None and tyname(w[1]) == 'Reverse':
            return [None if q is None else LA.neg(q) for q in self.parts(I, s, w[3][0])]
        if w[0] in ('agg', 'sym'):
            return [None]
        return [lin(I, s, w)]

    def keys(self, I, s, x, y, f):
        known = None not in x + y
        # the parts before one that is not known may decide
        x, y = (k[:k.index(None)] if None in k else k for k in (x, y))
        if not x or len(x) != len(y):
            self.R.undecided(ORDER, f'{self.key}: key')
            return
        # where nothing but the two runs decides, all is known exactly
        s.wid = 0 if known and (f[0] != 'agg' or not f[3]) else max(s.wid, 1)
        less, same = IP.FALSE, IP.TRUE
        for p, q in zip(x, y):
            less = IP.for_(less, IP.fand(same, IP.fge(addc(sub(q, p), -1))))
            same = IP.fand(same, IP.feq(sub(p, q)))
        self.ob(I, s, ORDER, less, 'key', 'the order does not put runs one after the other')

    def comparison(self, I, st, c, args):
        """the order sorted by puts a run that lies before another on both sides first"""
        R = self.R
        nm = c.name
        s = st.copy()
        u, w = (IP.mk_sym(('p', x), self.runty) for x in ('left run', 'right run'))
        qu, qw = self.run3(I, s, u), self.run3(I, s, w)
        for x in qu + qw:
            small(s, x)
        for q in (qu, qw):
            s.ge(addc(q[2], -1))
        for i in (0, 1):
            s.ge(sub(qw[i], add(qu[i], qu[2])))
        fs = []
        if nm.endswith('_key'):
            for s1, x in I.call_value(s, args[1], [('refv', u)], None):
                for s2, y in I.call_value(s1, args[1], [('refv', w)], None):
                    self.keys(I, s2, self.parts(I, s2, x), self.parts(I, s2, y), args[1])
            return
        if nm.endswith('_by'):
            out = I.call_value(s, args[1], [("refv", u), ("refv", w)], None)
        else:
            g = next((f for f in base.fns(self.p, 'cmp', 'pw_diff_lib') if (base.selfname(f) or '').endswith('CommonSubsequence')), None)
            if g is None:
                R.undecided(ORDER, f'{self.key}: comparison')
                return
            out = I.exec_fn(s, g, [('refv', u), ('refv', w)])
        for s2, v in out:
            v = I.strip(s2, v)
            name = v[1].r['variants'][v[2]]['name'] if v[0] == 'agg' else None
            if name is None:
                R.undecided(ORDER, f'{self.key}: comparison')
            else:
                R.check(ORDER, name == 'Less' or (None if s2.wid else False), f'{self.key} comparison', 'the order does not put runs one after the other')

    # ------------------------------------------------------------------
    def event(self, I, st, ev):
        g = st.ghost
        if g.get('lost'):
            return
        if ev[0] == 'push':
            v = I.strip(st, ev[2])
            ty = v[1] if v[0] == 'agg' else v[2] if v[0] == 'sym' else None
            k = self.kind(ty)
            if k == 'work':
                self.pushed(I, st, v)
            elif k == 'run' and ev[1][0] == 'seq':
                if g.get('phase') == 'search' and g.get('raw') not in (None, ev[1][1]) and st.wid == 0 and g.get('found') in ('', '-'):
                    # the list is made from runs in the order they were found: from the end of the worklist, any order
                    self.R.violate(ORDER, f'{self.key} unsorted', 'the runs found are not put in order')
                    g['lost'] = True
                elif g.get('phase') == 'search':
                    self.recorded(I, st, ev[1], v)
                else:
                    self.listed(I, st, ev[1], v)
        elif ev[0] in ('vecmut', 'insert', 'leak', 'pop', 'sort'):
            g['lost'] = True

    def pushed(self, I, st, v):
        r = self.rect(I, st, v)
        g = st.ghost
        if r is None:
            g['lost'] = True
            return
        if st.decide(IP.feq(st.mem[WK][1])) is True:
            return                 # judged when it is taken
        c, u = self.cur(I, st), self.found(I, st)
        f = IP.fand(IP.fand(IP.fge(sub(r[0], c[0])), IP.fge(sub(c[1], r[1]))), IP.fand(IP.fge(sub(r[2], c[2])), IP.fge(sub(c[3], r[3]))))
        self.ob(I, st, PROG, f, 'inside', 'a sub-problem reaches beyond the one it came from')
        self.ob(I, st, PROG, IP.fand(IP.fge(sub(r[1], r[0])), IP.fge(sub(r[3], r[2]))), 'valid', 'a sub-problem ends before it starts')
        if g.get('found') == 'yes':
            low = IP.fand(IP.fge(sub(u[0], r[1])), IP.fge(sub(u[2], r[3])))
            high = IP.fand(IP.fge(sub(r[0], u[1])), IP.fge(sub(r[2], u[3])))
            dl, dh = st.decide(low), st.decide(high)
            if dl is True or dh is True:
                self.R.ok(PROG)
                side = 'below' if dl is True else 'above'
                if g.get(side) is not False:
                    self.R.undecided(PROG, f'{self.key}: more than one sub-problem on one side')
                g[side] = True
            else:
                neither = IP.fand(IP.fnot(low), IP.fnot(high))
                self.ob(I, st, PROG, IP.fnot(neither), 'beside', 'a sub-problem overlaps the run found, or lies before it on one side and after it on the other')
        elif g.get('found') == 'no':
            self.ob(I, st, PROG, IP.fge(addc(sub(sub(add(c[1], c[3]), add(c[0], c[2])), sub(add(r[1], r[3]), add(r[0], r[2]))), -1)), 'smaller', 'a sub-problem is not smaller than the one it came from')
            self.R.undecided(PROG, f'{self.key}: sub-problem without a run')
        else:
            self.R.undecided(PROG, f'{self.key}: sub-problem before the search')

    def recorded(self, I, st, vec, v):
        g = st.ghost
        if g.get('raw', vec[1]) != vec[1]:
            g['lost'] = True
            return
        g['raw'] = vec[1]
        q = self.run3(I, st, v)
        if q is None or g.get('found') not in ('yes', 'no'):
            g['lost'] = True
            return
        if g['found'] == 'no':
            self.R.check(RECORD, False if st.wid == 0 and not self.clumsy(st) else None, f'{self.key} none', 'a run is recorded although none was found')
            return
        u = self.found(I, st)
        f = IP.fand(IP.feq(sub(q[0], u[0])), IP.fand(IP.feq(sub(q[1], u[2])), IP.feq(sub(add(q[0], q[2]), u[1]))))
        self.ob(I, st, RECORD, f, 'same', 'a run is recorded otherwise than found')
        if g.get('rec') is not False:
            self.R.check(RECORD, False if g.get('rec') is True else None, f'{self.key} twice', 'a run found is recorded twice')
        g['rec'] = True

    def clumsy(self, st):
        return False

    def listed(self, I, st, vec, v):
        g = st.ghost
        if g.get('raw') == vec[1] or g.get('list', vec[1]) != vec[1]:
            g['lost'] = True
            return
        g['list'] = vec[1]
        q = self.run3(I, st, v)
        if q is None:
            g['lost'] = True
            return
        b, a, n = q
        self.ob(I, st, APART, IP.fge(addc(n, -1)), 'empty', 'an empty run is put in the list')
        self.ob(I, st, APART, IP.fand(IP.fge(sub(b, st.mem[OB][1])), IP.fge(sub(a, st.mem[OA][1]))), 'order', 'a run overlaps the one before it in the list or is out of order')
        self.ob(I, st, APART, IP.fand(IP.fge(sub(self.gen.len['before'], add(b, n))), IP.fge(sub(self.gen.len['after'], add(a, n)))), 'inside', 'a run reaches beyond the inputs')
        f = self.equal(st.canon(b), st.canon(a), st.canon(n))
        self.ob(I, st, MERGE, f, 'equal', 'a run of the list is not made of touching runs found')
        st.mem[OB], st.mem[OA] = ('int', add(b, n)), ('int', add(a, n))

    # ------------------------------------------------------------------
    def run(self):
        R, f = self.R, self.f
        I = IP.Interp(self.p)
        I.cap = 200
        st = IP.State()
        self.gen = Gen(I, st, f)
        if not self.gen.ok or self.runty is None:
            R.undecided('anchor', 'generator fields')
            return
        self.A, self.B = I.seqid(self.gen.seq['before'])[0], I.seqid(self.gen.seq['after'])[0]
        I.seqinv.append(self.touched)
        I.prehook = self.hook
        I.on_event = self.event
        I.on_back = self.round
        I.templates = self.keep
        self.loop = None
        for c in (WK, FK, PK, PB, PA, QB, QA, OB, OA):
            st.mem[c] = ('int', ZERO)
        st.ghost.update({'lost': False, 'q': False, 'phase': 'search', 'found': '-', 'rec': False, 'below': False, 'above': False})
        try:
            rs = I.exec_fn(st, f, [('refv', self.gen.v)])
        except IP.Stop:
            R.undecided(PROG, f'{self.key}: analysis budget')
            rs = []
        for s, v in rs:
            v = I.strip(s, v)
            g = s.ghost
            if g.get('lost') or v[0] != 'seq':
                R.undecided(APART, f'{self.key}: not followed')
                continue
            if g.get('phase') == 'search':
                self.unsorted(I, s, v)
                continue
            if v[1] == g.get('raw') or g.get('list', v[1]) != v[1]:
                if v[3] == RAW and not v[5]:
                    R.ok(APART)        # the runs themselves
                else:
                    R.undecided(APART, f'{self.key}: the list')
                continue
            self.ob(I, s, RECORD, IP.feq(sub(var(atom(('len', RAW), 0, LA.MAX)), s.mem[PK][1])), 'all', 'runs found are left out of the list')
        R.add_interp(I)

    def unsorted(self, I, s, v):
        # taken from the end of the worklist, the runs come in any order
        if s.ghost.get('raw') is not None and s.decide(IP.feq(s.mem[WK][1])) is False:
            self.R.violate(ORDER, f'{self.key} unsorted', 'the runs found are not put in order')
        else:
            self.R.undecided(ORDER, f'{self.key}: order')


def c25(R):
    R.rule('one round of the search for runs, for an arbitrary sub-problem inside the inputs and an arbitrary run inside it: what is left to search lies inside it, beside the run')
    R.rule('the list made from the recorded runs, put in order, is followed run by run')
    p = mir.load()
    fs = generators(p, 'longest_common_subsequences')
    for f in fs:
        Search(R, p, f).run()
    if len(fs) < 2:
        R.undecided('anchor', 'longest_common_subsequences')
    from .lcs import Lcs
    R.rule('one search, for up to three items each found in at most one place: no step of it can panic')
    for f in generators(p, 'longest_common_subsequence'):
        Lcs(R, p, f).run(few=True, seek=True)
