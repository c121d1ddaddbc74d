"""C21: the occurrence index."""
from .. import mir, interp as IP, lin as LA, models as MO
from ..lin import var, const, add, sub, addc, neg, atom, ZERO
from . import base
from .engine import tyname
from .script import lin
from .differ import small, pick, short

SEQ = ('p', 'items')
N = ('G', 'ix.n')
ORDER = 'positions are recorded one by one, from the first to the last'
KEYED = 'a position is recorded under the item at that position'
ALL = 'every position is recorded'
KEPT = 'no recorded position is lost'
ASKED = 'asking for an item yields exactly the positions recorded for it'
NONE = 'an item that does not occur yields nothing'
OWN = 'the index kept with two inputs is that of the before input'


def impls(p, name):
    """the methods of the index types, one per item type"""
    out = []
    for f in p.fns.values():
        if f.crate != 'pw_diff_lib' or f.name != name or f.poly or '{closure' in f.key:
            continue
        if ' as ' in f.key and f.key.split(' as ', 1)[1].startswith('pw_diff_lib::sequence::ContentItemIndices<'):
            t = f.key.split('ContentItemIndices<', 1)[1].split('>')[0]
            if t in ('alloc::string::String', 'u8'):
                out.append((f, short(t)))
    return out


def is_map(ty):
    return ty is not None and ty.k == 'adt' and ('HashMap' in ty.r['path'] or 'BTreeMap' in ty.r['path'])


OPS = {'BitAnd': lambda a, b: a & b, 'BitOr': lambda a, b: a | b, 'BitXor': lambda a, b: a ^ b, 'Shr': lambda a, b: a >> b, 'Shl': lambda a, b: a << b,
       'Rem': lambda a, b: a % b if b else -1, 'Div': lambda a, b: a // b if b else -1, 'Mul': lambda a, b: a * b}


def value(l, i, b):
    """value of a linear form of one byte (atom i) at the byte b; KeyError if it depends on something else"""
    n = l[0]
    for j, c in l[1]:
        if j == i:
            n += c * b
            continue
        t = LA.term_of(j)
        if not (isinstance(t, tuple) and t[0] == 'arith' and len(t) == 4):
            raise KeyError(j)
        n += c * OPS[t[1]](value(t[2], i, b), value(t[3], i, b))
    return n


class Build:
    """how the index of an arbitrary sequence is built, one recorded position at a time"""

    def __init__(self, R, p, f, key, few):
        self.R, self.p, self.f, self.few = R, p, f, few
        self.key = f'generate_from {key}'
        self.item = key

    # the state of the map, as far as it is known
    def lost(self, st, why):
        if not st.ghost.get('ix.lost'):
            st.ghost['ix.lost'] = True
            self.R.undecided(ORDER, f'{self.key}: {why}')

    def record(self, I, st, k, x, place=None):
        """position x is put in the list of item k"""
        if st.ghost.get('ix.lost'):
            return
        n = st.mem[N][1]
        if x is None:
            self.lost(st, 'position of unknown value')
            return
        base.oblige(self.R, I, st, ORDER, IP.feq(sub(x, n)), f'{self.key} order', 'a position is left out, repeated or out of order')
        want = ('elem', self.SEQ, st.canon(n))
        if place is not None:
            # the place in the table is the value of the byte at that position
            w = lin(I, st, I.elem(st, self.seq, n))
            if w is None:
                self.R.undecided(KEYED, f'{self.key}: byte not followed')
            else:
                d = st.decide(IP.feq(sub(place, w)))
                if d is not True:
                    e = self.same_byte(st, place, w)
                    d = e if e is not None else d
                if d is True:
                    self.R.ok(KEYED)
                elif d is False and st.wid == 0:
                    self.R.violate(KEYED, f'{self.key} key', 'a position is recorded under another byte')
                else:
                    self.R.undecided(KEYED, f'{self.key}: place not followed')
        elif k is None:
            self.R.undecided(KEYED, f'{self.key}: list of unknown item')
        elif st.term_eq(k, want):
            self.R.ok(KEYED)
        elif k[0] == 'elem' and k[1] == self.SEQ and st.wid == 0 and not self.same(st, k, want):
            self.R.violate(KEYED, f'{self.key} key', 'a position is recorded under another item')
        else:
            self.R.undecided(KEYED, f'{self.key}: item not followed')
        st.mem[N] = ('int', addc(n, 1))

    def same_byte(self, st, place, w):
        """is the place in the table, as a function of the byte, the byte itself? (looked at for each of the 256 values)"""
        l, w = st.canon(place), st.canon(w)
        if w[0] != 0 or len(w[1]) != 1 or w[1][0][1] != 1:
            return None
        try:
            return all(value(l, w[1][0][0], b) == b for b in range(256))
        except KeyError:
            return None

    def same(self, st, a, b):
        """can the two items be the same one?"""
        return st.decide(IP.feq(sub(a[2], b[2]))) is not False and st.decide(IP.feq(sub(a[2], b[2]))) is None and not base.exact(IP.feq(sub(a[2], b[2])))

    def items(self, I, st, v):
        """the positions in a new list, or None"""
        v = I.strip(st, v)
        if v[0] == 'box':
            v = I.strip(st, v[1])
        s = MO.as_seq(I, st, v)
        if s is None or s[6]:
            return None
        if s[3] is not None or not st.ent_eq(s[4]):
            return None
        return list(s[5])

    def stored(self, I, st, k, v):
        """a new list is stored for item k"""
        xs = self.items(I, st, v)
        if xs is None:
            self.lost(st, 'list of unknown content')
            return
        for x in xs:
            self.record(I, st, k, lin(I, st, x))

    def cell(self, m, k, ty):
        return ('ref', ('D', ('ent', m, k), ty), ())

    def hook(self, I, st, c, args, rt):
        nm = c.name
        path = c.path
        if 'Map' in path and ('HashMap' in path or 'BTreeMap' in path) and args:
            if nm in ('new', 'with_capacity', 'default', 'with_hasher', 'with_capacity_and_hasher'):
                return None
            v = I.strip(st, args[0])
            if v[0] != 'map' or MO.is_int_map(v[2]):
                return None
            lt = v[2].r['args'][1]
            if nm in ('len', 'is_empty', 'reserve', 'shrink_to_fit', 'capacity'):
                return None
            if nm not in ('get', 'get_mut', 'contains_key', 'insert', 'entry'):
                if nm in ('remove', 'clear', 'drain', 'remove_entry', 'retain', 'pop_first', 'pop_last') and not st.ghost.get('ix.lost') and st.wid == 0 and nm not in ('retain',):
                    if st.decide(IP.fge(addc(st.mem[N][1], -1))) is True:
                        self.R.violate(KEPT, f'{self.key} {nm}', 'recorded positions are taken out of the index')
                self.lost(st, f'map operation {nm}')
                return None
            k = MO.content(I, st, args[1])
            if k is None:
                self.lost(st, 'item of unknown identity')
                return None
            st.ghost['ix.map'] = v[1]
            if nm == 'insert':
                a = st.ghost.get('ix.absent')
                if a is not None and st.term_eq(a, k):
                    self.R.ok(KEPT)
                elif st.decide(IP.feq(st.mem[N][1])) is True:
                    self.R.ok(KEPT)
                elif not st.ghost.get('ix.lost') and st.wid == 0:
                    # nothing is known about the item: it may have been recorded before
                    self.R.violate(KEPT, f'{self.key} insert', 'storing a new list drops the positions already recorded for the item')
                else:
                    self.R.undecided(KEPT, f'{self.key}: insert')
                s = st.copy()
                s.ghost['ix.absent'] = None
                s.ghost['ix.present'] = k
                self.stored(I, s, k, args[2])
                return [(s, I.opaque(rt, 'old') if rt is not None else ('sym', IP.fresh('old'), None))]
            out = []
            kn = None
            if st.ghost.get('ix.absent') is not None and st.term_eq(st.ghost['ix.absent'], k):
                kn = False
            elif st.ghost.get('ix.present') is not None and st.term_eq(st.ghost['ix.present'], k):
                kn = True
            for there in (True, False):
                if kn is not None and kn != there:
                    continue
                s = st.copy()
                s.ghost['ix.present'], s.ghost['ix.absent'] = (k, None) if there else (None, k)
                if nm == 'contains_key':
                    out.append((s, ('bool', IP.TRUE if there else IP.FALSE)))
                elif nm == 'entry':
                    vs = [x['name'] for x in rt.r['variants']] if rt is not None and rt.k == 'adt' and rt.r.get('variants') else []
                    w = 'Occupied' if there else 'Vacant'
                    e = ('sym', ('mapentry', v[1], k, there), None)
                    out.append((s, ('agg', rt, vs.index(w), (e,)) if w in vs else e))
                elif not there:
                    out.append((s, MO.none(rt)))
                elif nm == 'get_mut':
                    out.append((s, MO.some(rt, self.cell(v[1], k, lt))))
                else:
                    out.append((s, MO.some(rt, ('refv', IP.mk_sym(('ent', v[1], k), lt)))))
            return out
        e = self.entry_of(I, st, args[0]) if args and ('Entry' in path) else None
        if e is not None:
            _, m, k, there = e
            lt = rt.r['inner'] if rt is not None and rt.k == 'ref' else None
            s = st.copy()
            if nm in ('or_default', 'or_insert', 'or_insert_with', 'insert', 'or_insert_with_key'):
                if nm == 'insert' and there:
                    if st.wid == 0 and not st.ghost.get('ix.lost'):
                        self.R.violate(KEPT, f'{self.key} insert', 'storing a new list drops the positions already recorded for the item')
                    return None
                res = [(s, None)]
                if not there:
                    if nm in ('or_insert', 'insert'):
                        res = [(s, args[1])]
                    elif nm == 'or_insert_with':
                        res = I.call_value(s, args[1], [], lt)
                    elif nm == 'or_insert_with_key':
                        self.lost(s, 'or_insert_with_key')
                out = []
                for s2, v in res:
                    s2.ghost['ix.absent'], s2.ghost['ix.present'] = None, k
                    if v is not None:
                        self.stored(I, s2, k, v)
                    out.append((s2, self.cell(m, k, lt)))
                return out
            if nm in ('get_mut', 'into_mut', 'get') and there:
                return [(s, self.cell(m, k, lt))]
            if nm == 'and_modify':
                if not there:
                    return [(s, args[0])]
                cl = self.cell(m, k, next((t for t in [self.list_type] if t is not None), None))
                return [(s2, args[0]) for s2, _ in I.call_value(s, args[1], [cl], None)]
            if nm == 'key':
                return None
            self.lost(st, f'entry operation {nm}')
            return None
        if path.startswith('alloc::vec::Vec') and args:
            loc = self.list_of(I, st, args[0])
            if loc is None:
                return None
            if nm == 'push':
                s = st.copy()
                self.record(I, s, loc[0], lin(I, s, args[1]), loc[1])
                self.forget(I, s, args[0])
                return [(s, MO.UNIT)]
            if nm in ('pop', 'clear', 'truncate', 'remove', 'swap_remove', 'drain', 'insert', 'retain', 'dedup'):
                n = st.mem[N][1]
                if nm in ('pop', 'clear') and st.wid == 0 and not st.ghost.get('ix.lost') and st.decide(IP.fge(addc(n, -1))) is True:
                    self.R.violate(KEPT, f'{self.key} {nm}', 'recorded positions are taken out of a list')
                if nm == 'insert' and st.wid == 0 and not st.ghost.get('ix.lost'):
                    w = lin(I, st, args[1])
                    if w is not None and st.decide(IP.feq(w)) is True:
                        self.R.violate(ORDER, f'{self.key} insert', 'a position is put in front of those recorded before')
                self.lost(st, f'list operation {nm}')
        return None

    def entry_of(self, I, st, v):
        v = I.strip(st, v)
        for _ in range(3):
            if v[0] == 'agg' and len(v[3]) == 1:
                v = I.strip(st, v[3][0])
        if v[0] == 'sym' and v[1][0] == 'mapentry':
            return v[1]
        return None

    def list_of(self, I, st, a):
        """(item,) if a refers to the list of an item"""
        for _ in range(5):
            if a[0] != 'ref':
                return None
            if a[1][0] == 'D' and a[1][1][0] == 'ent' and a[2] == ():
                return (a[1][1][2], None)
            if a[2] and a[2][-1][0] == 'e' and self.item == 'u8':
                base_ = I.read(st, a[1], a[2][:-1])
                if base_[0] in ('seq', 'sym', 'isym', 'agg', 'int'):
                    return (self.byte_item(I, st, a[2][-1][1]), a[2][-1][1])
            v = I.read(st, a[1], a[2])
            if v[0] != 'ref':
                return None
            a = v
        return None

    def forget(self, I, st, a):
        """what the other lists hold is not followed: the table becomes an arbitrary one"""
        for _ in range(5):
            if a[0] != 'ref' or a[1][0] == 'D':
                return
            if a[2] and a[2][-1][0] == 'e':
                t = next((t for n, t in self.p.types.items() if t.k == 'array' and t.r.get('len') == 256 and 'Vec<usize>' in n), None)
                I.write(st, a[1], a[2][:-1], ('sym', ('u', 'table', IP.fresh('table')[2]), t))
                return
            a = I.read(st, a[1], a[2])

    def touched(self, I, st, seq, idx, v):
        """a recorded position is one of those already walked over"""
        if seq[0] not in ('sym', 'isym') or not isinstance(seq[1], tuple):
            return
        t = seq[1]
        while t[0] == '*':
            t = t[1]
        if t[0] == 'ent' or (t[0] == 'elem' and isinstance(t[1], tuple) and t[1][:2] == ('u', 'table')):
            x = lin(I, st, v)
            if x is not None:
                st.ge(x)
                st.ge(addc(sub(st.mem[N][1], x), -1))

    def byte_item(self, I, st, l):
        """the byte whose value is used as place in the table"""
        return I.item_term(st.canon(l))

    def run(self):
        R, f = self.R, self.f
        I = IP.Interp(self.p)
        I.cap = 400 if self.few else 100
        I.peel = 5 if self.few else 2
        I.max_steps = 200000
        st = IP.State()
        self.list_type = next((t for n, t in self.p.types.items() if n == 'alloc::vec::Vec<usize>'), None)
        v = IP.mk_sym(SEQ, f.locals[1].r['inner'])
        q = I.strip(st, I.field(st, v, 0, 0))
        L = I.seqlen(st, q)
        if L is None:
            R.undecided('anchor', 'items of a sequence')
            return
        # the items, whichever way the sequence wraps them
        self.items_id = I.seqid(q)
        small(st, L)
        if self.few:
            st.ge(addc(neg(L), 3))
        st.mem[N] = ('int', ZERO)
        st.ghost['ix.lost'] = False
        st.ghost['ix.absent'] = st.ghost['ix.present'] = st.ghost['ix.map'] = None
        I.prehook = self.hook
        self.seq = q
        I.seqinv.append(self.touched)

        def back(I, s, d, head):
            # what is known about one item's list does not outlive the iteration
            s.ghost['ix.absent'] = s.ghost['ix.present'] = None
        I.on_back = back
        self.ids(I)
        try:
            rs = I.exec_fn(st, f, [('refv', v)])
        except IP.Stop:
            R.undecided(ORDER, f'{self.key}: analysis budget')
            rs = []
        if not rs:
            R.undecided(ALL, f'{self.key}: no result')
        for s, r in rs:
            if s.ghost.get('ix.lost'):
                R.undecided(ALL, f'{self.key}: not followed')
                continue
            r = I.strip(s, r)
            for _ in range(4):
                if r[0] == 'box':
                    r = I.strip(s, r[1])
                elif r[0] == 'agg' and len(r[3]) == 1:
                    r = I.strip(s, r[3][0])
            if r[0] == 'map' and s.ghost.get('ix.map') not in (None, r[1]):
                R.undecided(ALL, f'{self.key}: another map is returned')
                continue
            n = s.mem[N][1]
            if I.unmodelled:
                # something that was not followed may have recorded positions
                if s.decide(IP.feq(sub(L, n))) is not True:
                    R.undecided(ALL, f'{self.key}: not followed')
                    continue
            short_by = s.decide(IP.feq(sub(L, n))) is False and base.exact(IP.feq(sub(L, n)))
            base.oblige(R, I, s, ALL, IP.feq(sub(L, n)), f'{self.key} all', 'positions are left out of the index', strict=short_by)
        R.add_interp(I)

    def ids(self, I):
        if self.items_id is not None:
            self.SEQ = self.items_id[0]


def lookup(R, p, f, key):
    I = IP.Interp(p)
    st = IP.State()
    name = f'indices {key}'
    got = []

    def hook(I, st, c, args, rt):
        if ('HashMap' in c.path or 'BTreeMap' in c.path) and c.name == 'get':
            m = MO.content(I, st, args[0])
            k = MO.content(I, st, args[1])
            if m is None or k is None:
                return None
            lt = rt.r['args'][0]
            t = ('ent', m, k)
            a, b = st.copy(), st.copy()
            a.ghost['ix.got'], b.ghost['ix.got'] = 'none', 'some'
            b.ge(addc(var(atom(('len', t), 0, LA.MAX)), -1))
            return [(a, MO.none(rt)), (b, MO.some(rt, ('refv', IP.mk_sym(t, lt.r['inner']))))]
        return None
    I.prehook = hook
    me = base.arg(I, st, f.locals[1], 'self')
    it = base.arg(I, st, f.locals[2], 'item')
    own = I.strip(st, I.field(st, I.strip(st, me), 0, 0))
    itv = I.strip(st, it)
    it_l = lin(I, st, itv) if itv[0] == 'int' else None
    itc = MO.content(I, st, itv)
    if is_map(own[2] if own[0] == 'sym' else None):
        want = ('ent', own[1], itc)
        table = False
    elif it_l is not None:
        want = ('elem', own[1], None) if own[0] in ('sym', 'isym') else None
        table = True
    else:
        want = None
        table = False
    if want is None:
        R.undecided(ASKED, f'{name}: index of unknown form')
        return
    for s, v in I.exec_fn(st, f, [me, it]):
        if I.unmodelled:
            R.undecided(ASKED, f'{name}: not followed')
            continue
        for s2, a in MO.variant_split(I, s, I.strip(s, v)):
            if table:
                w = I.elem(s2, own, s2.canon(it_l))
                wl = I.seqlen(s2, I.strip(s2, w))
            if a[2] == 1:
                t = MO.content(I, s2, a[3][0])
                if t is None:
                    x = I.strip(s2, a[3][0])
                    r = I.seqid(x)
                    t = r[0] if r is not None and s2.ent_eq(r[1]) else None
                if table:
                    r = I.seqid(I.strip(s2, w))
                    good = r is not None and t is not None and s2.term_eq(t, r[0])
                    base.oblige(R, I, s2, NONE, IP.fge(addc(wl, -1)), f'{name} empty', 'an item that does not occur yields an empty list')
                else:
                    good = t is not None and s2.term_eq(t, want)
                if good:
                    R.ok(ASKED)
                elif t is not None and s2.wid == 0 and not base.has_u(t):
                    R.violate(ASKED, f'{name} other', 'the list of another item is returned')
                else:
                    R.undecided(ASKED, f'{name}: list not followed')
            elif table:
                base.oblige(R, I, s2, ASKED, IP.feq(wl), f'{name} nothing', 'nothing is returned for an item that occurs')
            elif s2.ghost.get('ix.got') == 'none':
                R.ok(ASKED)
            else:
                R.violate(ASKED, f'{name} nothing', 'nothing is returned for an item that occurs')
    R.add_interp(I)


def owner(R, p):
    """the generator keeps the index of its own before input"""
    seen = 0
    for f in base.fns(p, 'new', 'pw_diff_lib'):
        t = f.locals[0]
        if tyname(t) != 'ChangesGenerator' or f.argc != 2 or t.r['args'][0].name not in ('alloc::string::String', 'u8'):
            continue
        seen += 1
        key = f'ChangesGenerator<{short(t.r["args"][0].name)}>::new'
        fs = {x['name']: i for i, x in enumerate(t.r['variants'][0]['fields'])}
        I = IP.Interp(p)
        st = IP.State()

        def hook(I, st, c, args, rt):
            if pick(c, p, 'generate_from'):
                return [(st, ('sym', ('index', MO.content(I, st, args[0])), rt))]
            return None
        I.prehook = hook
        a, b = base.arg(I, st, f.locals[1], 'a1'), base.arg(I, st, f.locals[2], 'a2')
        for s, v in I.exec_fn(st, f, [a, b]):
            v = I.strip(s, v)
            if v[0] != 'agg' or not {'before', 'after'} <= set(fs):
                R.undecided(OWN, f'{key}: not followed')
                continue
            d = {n: MO.content(I, s, v[3][i]) for n, i in fs.items()}
            R.check(OWN, True if (d['before'], d['after']) == (('p', 'a1'), ('p', 'a2')) else (False if d['before'] is not None and d['after'] is not None else None), f'{key} inputs', 'the two inputs are exchanged or not kept')
            for n, x in d.items():
                if n in ('before', 'after'):
                    continue
                if x is not None and x[0] == 'index':
                    R.check(OWN, x[1] == d['before'], f'{key} {n}', 'the index is not that of the before input')
                else:
                    R.undecided(OWN, f'{key} {n}')
        R.add_interp(I)
    if seen < 2:
        R.undecided('anchor', 'ChangesGenerator::new')


def c21(R):
    R.rule('recording positions in the index is followed one by one: the n-th recorded position is n, under the n-th item, in a list that keeps what it held')
    R.rule('looking an item up returns the list stored for that very item and nothing for an item without one')
    R.assume.append('the hash map and the vectors of the standard library behave as documented')
    p = mir.load()
    g = impls(p, 'generate_from')
    for f, k in g:
        Build(R, p, f, k, False).run()
        Build(R, p, f, k, True).run()
    h = impls(p, 'indices')
    for f, k in h:
        lookup(R, p, f, k)
    owner(R, p)
    if len(g) < 2 or len(h) < 2:
        R.undecided('anchor', 'index types')
