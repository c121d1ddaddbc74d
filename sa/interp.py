"""Abstract interpreter over the dumped MIR.

Forward analysis over each function's control-flow graph in weak topological
order.  Abstract states hold a value for every live place, a conjunction of
affine (in)equalities over symbolic quantities (lengths, indices, parameters),
facts about equal runs of items, and the ghost state of property monitors.
States meeting at a block are merged when they agree and joined when there are
too many; loops are partitioned for their first iterations and then iterated
to a fixpoint with a join that infers affine invariants.  Workspace functions
are analysed in their callers' context (so helper functions do not matter);
the standard library is described by the summaries in models.py.
"""
import sys
from . import lin as LA
from .lin import atom, var, const, add, sub, addc, neg, is_const, ZERO, ONE

sys.setrecursionlimit(20000)

TRUE, FALSE = ('T',), ('F',)
UNIT = ('agg', None, 0, ())


class Stop(Exception):
    """analysis budget exceeded: result is 'no verdict' for the entry"""


def fnot(f):
    if f == TRUE:
        return FALSE
    if f == FALSE:
        return TRUE
    if f[0] == 'not':
        return f[1]
    if f[0] == 'ge':
        return ('ge', addc(neg(f[1]), -1))
    return ('not', f)


def fand(a, b):
    if a == FALSE or b == FALSE:
        return FALSE
    if a == TRUE:
        return b
    if b == TRUE:
        return a
    return ('and', a, b)


def for_(a, b):
    return fnot(fand(fnot(a), fnot(b)))


def fge(l):
    if is_const(l):
        return TRUE if l[0] >= 0 else FALSE
    return ('ge', l)


def feq(l):
    if is_const(l):
        return TRUE if l[0] == 0 else FALSE
    return ('eq', l)


def signed_discr(ty, d):
    """the tag of core::cmp::Ordering is signed"""
    return d - 256 if ty.name == 'core::cmp::Ordering' and d > 127 else d


class State:
    __slots__ = ('mem', 'cons', 'facts', 'bools', 'ghost', 'trace', 'wid')

    def __init__(self):
        self.mem = {}
        self.cons = LA.Cons()
        self.facts = frozenset()
        self.bools = {}
        self.ghost = {}
        self.trace = ()
        self.wid = 0          # >0 : inside / after a widened loop iteration

    def copy(self):
        s = State.__new__(State)
        s.mem = dict(self.mem)
        s.cons = self.cons
        s.facts = self.facts
        s.bools = self.bools
        s.ghost = dict(self.ghost)
        s.trace = self.trace
        s.wid = self.wid
        return s

    def key(self):
        return (frozenset(self.mem.items()), self.cons.key(), self.facts, frozenset(self.bools.items()),
                frozenset(self.ghost.items()), self.trace, self.wid)

    # ---- constraints
    def _post_eq(self, old):
        """re-canonicalise item atoms whose index mentions an eliminated atom"""
        new = [i for i in self.cons.eq if i not in old]
        if not new or self.cons.bad:
            return
        ns = set(new)
        for i in list(self.cons.atoms()):
            t = LA.term_of(i)
            t2 = self._canon_term(t, ns)
            if t2 is not t and t2 != t:
                lo, hi = LA.RANGE[i]
                j = atom(t2, lo, hi)
                o = self.cons.eq
                self.cons = self.cons.add_eq(sub(var(i), var(j)))
                if self.cons.bad:
                    return

    def _canon_term(self, t, ns=None):
        if not isinstance(t, tuple):
            return t
        if t and t[0] == 'elem':
            b = self._canon_term(t[1], ns)
            ix = t[2]
            if ns is None or any(i in ns for i, _ in ix[1]):
                ix = self.cons.norm(ix)
            if b is t[1] and ix == t[2]:
                return t
            return ('elem', b, ix)
        if t and t[0] in ('fld', '*', 'len', 'discr'):
            b = self._canon_term(t[1], ns)
            if b is t[1]:
                return t
            return (t[0], b) + t[2:]
        return t

    def eq(self, l):
        old = self.cons.eq
        self.cons = self.cons.add_eq(self.canon(l))
        if self.cons.eq is not old:
            self._post_eq(old)
        return not self.cons.bad

    def ge(self, l):
        old = self.cons.eq
        self.cons = self.cons.add_ge(self.canon(l))
        if self.cons.eq is not old:
            self._post_eq(old)
        return not self.cons.bad

    def ne(self, l):
        old = self.cons.eq
        self.cons = self.cons.add_ne(self.canon(l))
        if self.cons.eq is not old:
            self._post_eq(old)
        return not self.cons.bad

    def canon(self, l):
        l = self.cons.norm(l)
        m = None
        for i, _ in l[1]:
            t = LA.term_of(i)
            if isinstance(t, tuple) and t and t[0] in ('elem', 'fld', 'len', 'discr', '*'):
                t2 = self._canon_term(t)
                if t2 is not t and t2 != t:
                    lo, hi = LA.RANGE[i]
                    m = m or {}
                    m[i] = var(atom(t2, lo, hi))
        if m:
            l = self.cons.norm(LA.subst(l, m))
        return l

    def ent_ge(self, l):
        return self.cons.entails_ge(self.canon(l))

    def ent_eq(self, l):
        return self.cons.entails_eq(self.canon(l))

    def ent_ne(self, l):
        return self.cons.entails_ne(self.canon(l))

    # ---- item equality facts
    def term_eq(self, a, b):
        if a == b:
            return True
        if not (isinstance(a, tuple) and isinstance(b, tuple)) or len(a) != len(b) or not a or a[0] != b[0]:
            return False
        if a[0] == 'elem':
            return self.term_eq(a[1], b[1]) and self.ent_eq(sub(a[2], b[2]))
        if a[0] in ('fld', 'len', '*', 'discr', 'opx', 'cat', 'sub'):
            for x, y in zip(a[1:], b[1:]):
                if x == y:
                    continue
                if isinstance(x, tuple) and isinstance(y, tuple):
                    if len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], tuple):
                        if not self.ent_eq(sub(x, y)):
                            return False
                    elif not self.term_eq(x, y):
                        return False
                else:
                    return False
            return True
        return False

    def ent_ceq(self, a, b):
        if self.term_eq(a, b):
            return True
        for f in self.facts:
            if f[0] == 'ceq':
                if (self.term_eq(f[1], a) and self.term_eq(f[2], b)) or (self.term_eq(f[1], b) and self.term_eq(f[2], a)):
                    return True
        if a[0] == 'elem' and b[0] == 'elem':
            return self.ent_run(a[1], a[2], b[1], b[2], ONE)
        return False

    def runs(self, A, B):
        """(lo_a, lo_b, len) of all facts relating items of A to items of B"""
        out = []
        for f in self.facts:
            if f[0] == 'run':
                if f[1] == A and f[3] == B:
                    out.append((f[2], f[4], f[5]))
                if f[1] == B and f[3] == A:
                    out.append((f[4], f[2], f[5]))
            elif f[0] == 'ceq' and f[1][0] == 'elem' and f[2][0] == 'elem':
                if f[1][1] == A and f[2][1] == B:
                    out.append((f[1][2], f[2][2], ONE))
                if f[1][1] == B and f[2][1] == A:
                    out.append((f[2][2], f[1][2], ONE))
        return out

    def ent_run(self, A, a, B, b, n):
        """items A[a..a+n] equal B[b..b+n] pairwise"""
        if self.ent_ge(neg(n)):
            return True
        if A == B and self.ent_eq(sub(a, b)):
            return True
        end = add(a, n)
        off = sub(a, b)
        cand = [(x, z) for x, y, z in self.runs(A, B) if self.ent_eq(sub(sub(x, y), off))]
        cur = a
        for _ in range(len(cand) + 1):
            if self.ent_ge(sub(cur, end)):
                return True
            best = None
            for x, z in cand:
                if self.ent_ge(sub(cur, x)) and self.ent_ge(sub(add(x, z), addc(cur, 1))):
                    best = add(x, z)
                    cand = [c for c in cand if c != (x, z)]
                    break
            if best is None:
                # a run that may be empty but starts at cur still helps when it certainly reaches the end
                for x, z in cand:
                    if self.ent_ge(sub(cur, x)) and self.ent_ge(sub(add(x, z), cur)):
                        best = add(x, z)
                        cand = [c for c in cand if c != (x, z)]
                        break
            if best is None:
                return False
            cur = best
        return False

    # ---- formulas
    def decide(self, f):
        k = f[0]
        if k == 'T':
            return True
        if k == 'F':
            return False
        if k == 'ge':
            l = self.canon(f[1])
            if self.cons.entails_ge(l):
                return True
            if self.cons.entails_ge(addc(neg(l), -1)):
                return False
            return None
        if k == 'eq':
            l = self.canon(f[1])
            if self.cons.entails_eq(l):
                return True
            if self.cons.entails_ne(l):
                return False
            return None
        if k == 'b':
            return self.bools.get(f[1])
        if k == 'ceq':
            if self.ent_ceq(f[1], f[2]):
                return True
            for g in self.facts:
                if g[0] == 'nceq' and ((self.term_eq(g[1], f[1]) and self.term_eq(g[2], f[2])) or (self.term_eq(g[1], f[2]) and self.term_eq(g[2], f[1]))):
                    return False
            a, b = f[1], f[2]
            if a[0] == 'lit' and b[0] == 'lit':
                return a[1] == b[1]
            return None
        if k == 'run':
            if self.ent_run(*f[1:]):
                return True
            return None
        if k == 'not':
            r = self.decide(f[1])
            return None if r is None else (not r)
        if k == 'and':
            a = self.decide(f[1])
            if a is False:
                return False
            b = self.decide(f[2])
            if b is False:
                return False
            if a and b:
                return True
            return None
        return None

    def assume(self, f, pos=True):
        """list of states in which f (or its negation) holds"""
        k = f[0]
        if k == 'not':
            return self.assume(f[1], not pos)
        d = self.decide(f)
        if d is not None:
            return [self] if d == pos else []
        if k == 'ge':
            s = self.copy()
            ok = s.ge(s.canon(f[1])) if pos else s.ge(addc(neg(s.canon(f[1])), -1))
            return [s] if ok else []
        if k == 'eq':
            s = self.copy()
            ok = s.eq(s.canon(f[1])) if pos else s.ne(s.canon(f[1]))
            return [s] if ok else []
        if k == 'b':
            s = self.copy()
            s.bools = dict(s.bools)
            s.bools[f[1]] = pos
            return [s]
        if k == 'ceq':
            s = self.copy()
            if pos:
                s.facts = s.facts | {f}
                for g in self.facts:
                    if g[0] == 'nceq' and s.ent_ceq(g[1], g[2]):
                        return []
                ia, ib = INT_ITEM.get(f[1]), INT_ITEM.get(f[2])
                if ia is not None and ib is not None:
                    if not s.eq(sub(var(ia), var(ib))):
                        return []
            else:
                s.facts = s.facts | {('nceq', f[1], f[2])}
            return [s]
        if k == 'run':
            s = self.copy()
            if pos:
                s.facts = s.facts | {f}
                for g in self.facts:
                    if g[0] == 'nrun' and s.ent_run(*g[1:]):
                        return []
            else:
                s.facts = s.facts | {('nrun',) + f[1:]}
                if not s.ge(addc(f[5], -1)):
                    return []
            return [s]
        if k == 'and':
            if pos:
                out = []
                for s in self.assume(f[1], True):
                    out += s.assume(f[2], True)
                return out
            out = self.assume(f[1], False)
            for s in self.assume(f[1], True):
                out += s.assume(f[2], False)
            return out
        raise Exception(f'assume {f}')


INT_ITEM = {}     # content term -> int atom id (byte items)


def int_range(ty):
    if ty.k == 'int':
        b = ty.r['bits']
        if ty.r['signed']:
            return (None, None) if b >= 64 else (-(1 << (b - 1)), (1 << (b - 1)) - 1)
        return (0, LA.MAX) if b >= 64 else (0, (1 << b) - 1)
    if ty.k == 'char':
        return (0, 0x10ffff)
    return (None, None)


ITER_ADTS = ('core::slice::iter::Iter', 'core::iter::adapters::', 'alloc::vec::into_iter::IntoIter', 'core::slice::iter::IterMut',
             'core::array::iter::IntoIter', 'alloc::vec::drain::Drain')


def is_seq_ty(ty):
    return ty.k in ('slice', 'array') or (ty.k == 'adt' and ty.r['path'] in ('alloc::vec::Vec', 'alloc::collections::vec_deque::VecDeque'))


def elem_ty(ty):
    if ty is None:
        return None
    if ty.k in ('slice', 'array'):
        return ty.r['inner']
    if ty.k == 'adt' and ty.r.get('args'):
        return ty.r['args'][0]
    return None


def is_str_ty(ty):
    return ty.k == 'str' or (ty.k == 'adt' and ty.r['path'] in ('alloc::string::String', 'std::path::PathBuf', 'std::path::Path', 'std::ffi::os_str::OsString', 'std::ffi::os_str::OsStr'))


_fresh = [0]


def fresh(tag):
    _fresh[0] += 1
    return ('u', tag, _fresh[0])


def iter_item_term(term):
    return ('itersrc', term)


def mk_int(term, ty):
    lo, hi = int_range(ty)
    t = atom(term, lo, hi)
    if isinstance(term, tuple) and term and term[0] in ('u', 'w') or imprecise_term(term):
        LA.IMPRECISE.add(t)
    if ty.name == 'u8' and term[0] == 'elem':
        INT_ITEM[term] = t
    return ('int', var(t))


_imp = {}


def imprecise_term(t):
    if not isinstance(t, tuple) or not t:
        return False
    r = _imp.get(t)
    if r is None:
        if t[0] in ('u', 'w'):
            r = True
        elif t[0] in ('elem', 'fld', '*', 'len', 'discr'):
            r = imprecise_term(t[1])
            if not r and t[0] == 'elem':
                r = any(i in LA.IMPRECISE for i, _ in t[2][1])
        else:
            r = False
        _imp[t] = r
    return r


def mk_sym(term, ty):
    if ty is None:
        return ('sym', term, None)
    """abstract value of an arbitrary object of type ty named by term"""
    k = ty.k
    if k == 'int' or k == 'char':
        return mk_int(term, ty)
    if k == 'bool':
        return ('bool', ('b', term))
    if k in ('ref', 'ptr'):
        return ('ref', ('D', term, ty.r['inner']), ())
    if k == 'tuple':
        return ('agg', ty, 0, tuple(mk_sym(('fld', term, 0, i), t) for i, t in enumerate(ty.r['elems'])))
    if k == 'adt':
        p = ty.r['path']
        if p == 'alloc::boxed::Box':
            return ('box', mk_sym(term, ty.r['args'][0]))
        if is_iter_ty(ty):
            return sym_iter(term, ty)
    return ('sym', term, ty)


def is_iter_ty(ty):
    if ty.k != 'adt':
        return False
    p = ty.r['path']
    return p.startswith(ITER_ADTS)


def sym_iter(term, ty):
    """an arbitrary iterator: walks an unknown sequence of items from its start"""
    p = ty.r['path']
    a = ty.r['args']
    if p in ('core::iter::adapters::peekable::Peekable', 'core::iter::adapters::fuse::Fuse'):
        return mk_sym(term, a[0]) if is_iter_ty(a[0]) else ('sym', term, ty)
    if p == 'core::slice::iter::Iter':
        st = iter_item_term(term)
        seq = ('isym', st, a[0])
        return ('iter', ('slice', seq, ZERO, True), ZERO, var(atom(('len', st), 0, LA.MAX)))
    if p == 'alloc::vec::into_iter::IntoIter':
        st = iter_item_term(term)
        seq = ('isym', st, a[0])
        return ('iter', ('slice', seq, ZERO, False), ZERO, var(atom(('len', st), 0, LA.MAX)))
    return ('sym', term, ty)


class Interp:
    def __init__(self, prog, peel=2, cap=48, maxdepth=24):
        from . import models
        self.p = prog
        self.models = models
        self.peel = peel
        self.cap = cap
        self.maxdepth = maxdepth
        self.unmodelled = {}
        self.analysed = {}
        self.asserts = 0        # checks met that cannot fail
        self.visited = {}       # function -> blocks some state reached
        self.calls_seen = 0
        self.terminals = []       # (state, kind, info)
        self.hooks = {}           # path or key -> function(I, st, c, args, rt) -> results | None
        self.prehook = None       # like a hook, asked for every call
        self.loopstack = []
        self.templates = None     # (I, state) -> relations and facts worth keeping at a join
        self.on_back = None       # called for every state that goes round a loop
        self.on_event = None      # function(I, st, ev)
        self.on_panic = None      # function(I, st, kind, info)
        self.on_return = {}       # key -> function(I, st, val, args)
        self.tracing = False
        self.silent = 0
        self.stack = []
        self.steps = 0
        self.max_steps = 400000
        self.exact_maps = False
        self.loops = {'stable': 0, 'unstable': 0}
        self.joins = 0
        self.noinline = None      # predicate(fn) -> bool : treat as opaque operation
        self.deadline = None
        self.seqinv = []          # item invariants: f(I, st, seqvalue, index, item)
        self.groups = {}
        self.fieldswap = {}       # struct path -> field permutation applied to arbitrary objects of that type
        self.coarse = False       # joins keep no numeric relations (for monitors that need none)
        self._ent = 0

    def newentry(self):
        self._ent += 1
        return self._ent

    def sitekey(self):
        f, l = self.stack[-1] if self.stack else ('?', 0)
        return (getattr(f, 'key', f), l, len(self.frames))

    def where_ws(self):
        """innermost workspace call site"""
        for f, l in reversed(self.stack):
            if getattr(f, 'crate', '').startswith('pw_'):
                return f, l
        return self.stack[-1] if self.stack else (None, 0)

    def group_always(self, t, n):
        return None

    # ------------------------------------------------------------------ events
    def event(self, st, *ev):
        """record ev in st (st must be owned by the caller)"""
        ev = tuple(tuple(x) if isinstance(x, list) else x for x in ev)
        if self.tracing:
            st.trace = st.trace + (ev,)
        if self.on_event:
            self.on_event(self, st, ev)

    def where(self):
        return self.stack[-1] if self.stack else ('?', 0)

    def unk(self, what):
        self.unmodelled[what] = self.unmodelled.get(what, 0) + 1

    # ------------------------------------------------------------------ values
    def opaque(self, ty, tag='x'):
        return mk_sym(fresh(tag), ty)

    def elem(self, st, seq, idx):
        """value of item idx of a sequence value"""
        k = seq[0]
        if k == 'view':
            return self.elem(st, seq[1], add(seq[2], idx))
        if k == 'box':
            return self.elem(st, seq[1], idx)
        if k == 'sym':
            ety = elem_ty(seq[2])
            if ety is None:
                if seq[2] is not None and seq[2].name in ('str', 'alloc::string::String'):
                    return self.first_byte(st, seq[1], idx)
                return ('sym', fresh('elem'), seq[2])
            return mk_sym(('elem', seq[1], st.canon(idx)), ety)
        if k == 'isym':
            return mk_sym(('elem', seq[1], st.canon(idx)), seq[2])
        if k == 'seq':
            _, vid, ety, base, blen, tail, puts = seq
            if puts:
                ci = st.canon(idx)
                for pi, pv in reversed(puts):
                    if st.ent_eq(sub(pi, ci)):
                        return pv
                    if not st.ent_ne(sub(pi, ci)):
                        return mk_sym(fresh('elem'), ety)
            if base is None:
                d = st.canon(idx)
                if is_const(d) and 0 <= d[0] < len(tail):
                    return tail[d[0]]
            else:
                if not tail or st.ent_ge(addc(sub(blen, idx), -1)):
                    if base[0] == 'gen':
                        r = self.gen_elem(st, base[1], add(base[2], idx))
                        if len(r) == 1:
                            return r[0][1]
                        return mk_sym(fresh('elem'), ety)
                    if base[0] == 'of':
                        return self.elem(st, base[1], idx)
                    return mk_sym(('elem', base, st.canon(idx)), ety)
                d = st.canon(sub(idx, blen))
                if is_const(d) and 0 <= d[0] < len(tail):
                    return tail[d[0]]
            for k_, v in enumerate(tail):
                if st.ent_eq(sub(idx, addc(blen, k_))):
                    return v
            if tail and base is None and len(set(tail)) == 1:
                return tail[0]
            return mk_sym(fresh('elem'), ety)
        if k == 'str':
            return self.first_byte(st, seq[1], idx)
        return ('sym', fresh('elem'), None)

    def first_byte(self, st, t, idx):
        """first byte (or character) of a text: as far as ASCII goes the two are the same number"""
        d = st.canon(idx)
        if is_const(d) and d[0] == 0 and t[0] != 'lit':
            f = self.models.first_char(t)
            st.ge(f)
            return ('int', f)
        return ('sym', fresh('byte'), None)

    def seqlen(self, st, seq):
        k = seq[0]
        if k == 'view':
            return sub(seq[3], seq[2])
        if k == 'box':
            return self.seqlen(st, seq[1])
        if k == 'seq':
            return addc(seq[4], len(seq[5]))
        if k == 'sym':
            if seq[2] is not None and seq[2].k == 'array' and 'len' in seq[2].r:
                return const(seq[2].r['len'])
            return var(atom(('len', seq[1]), 0, LA.MAX, imprecise_term(seq[1])))
        if k == 'isym':
            return var(atom(('len', seq[1]), 0, LA.MAX, imprecise_term(seq[1])))
        if k == 'str':
            return self.models.strlen(self, st, seq[1])
        return None

    def seqid(self, seq):
        """identity (term) and offset of the underlying items, if they are those of one named sequence"""
        k = seq[0]
        if k == 'view':
            r = self.seqid(seq[1])
            return None if r is None else (r[0], add(r[1], seq[2]))
        if k == 'box':
            return self.seqid(seq[1])
        if k in ('sym', 'isym'):
            return (seq[1], ZERO)
        if k == 'seq':
            if not seq[5] and not seq[6] and seq[3] is not None:
                if seq[3][0] == 'of':
                    return self.seqid(seq[3][1])
                if seq[3][0] != 'gen':
                    return (seq[3], ZERO)
            return None
        return None

    def gen_elem(self, st, gen, i):
        """value of item i of an iterator generator: list of (state, value)"""
        k = gen[0]
        if k == 'slice':
            v = self.elem(st, gen[1], add(gen[2], i))
            return [(st, ('refv', v) if gen[3] else v)]
        if k == 'mutslice':
            # items of a mutable slice in memory
            return [(st, ('ref', gen[1], gen[2] + (('e', st.canon(add(gen[3], i))),)))]
        if k == 'range':
            return [(st, ('int', add(gen[1], i)))]
        if k == 'zip':
            out = []
            for s, a in self.gen_elem(st, gen[1], add(gen[2], i)):
                for s2, b in self.gen_elem(s, gen[3], add(gen[4], i)):
                    out.append((s2, ('agg', None, 0, (a, b))))
            return out
        if k == 'enum':
            return [(s, ('agg', None, 0, (('int', i), a))) for s, a in self.gen_elem(st, gen[1], add(gen[2], i))]
        if k == 'rev':
            return self.gen_elem(st, gen[1], sub(gen[2], i))
        if k == 'step':
            return self.gen_elem(st, gen[1], add(gen[2], LA.scale(i, gen[3])))
        if k == 'map':
            out = []
            for s, a in self.gen_elem(st, gen[1], i):
                out += self.call_value(s, gen[2], [a], None)
            return out
        if k == 'copied':
            return [(s, self.deref_val(s, a)) for s, a in self.gen_elem(st, gen[1], i)]
        if k == 'refs':
            return [(s, ('refv', a)) for s, a in self.gen_elem(st, gen[1], i)]
        if k == 'opq' and isinstance(gen[1], tuple) and gen[1][:1] == ('split',) and gen[1][1] in ('chars', 'bytes') and gen[1][3] is not None and is_const(st.canon(i)) and st.canon(i)[0] == 0:
            s = st.copy()
            return [(s, self.first_byte(s, gen[1][3], i))]
        if k == 'opq':
            return [(st, mk_sym(('elem', gen[1], st.canon(i)), gen[2]))]
        if k == 'once':
            return [(st, gen[1])]
        if k == 'list':
            i = st.canon(i)
            if is_const(i) and 0 <= i[0] < len(gen) - 1:
                return [(st, gen[1 + i[0]])]
            v = gen[1] if len(gen) > 1 else None
            return [(st, ('int', var(atom(fresh('item'), None, None, True))) if v is not None and v[0] == 'int' else ('sym', fresh('item'), None))]
        raise Exception('gen ' + k)

    def deref_val(self, st, v):
        if v[0] == 'ref':
            return self.read(st, v[1], v[2])
        if v[0] == 'refv':
            return v[1]
        if v[0] == 'box':
            return v[1]
        if v[0] == 'sym' and v[2] is not None and v[2].k in ('ref', 'ptr'):
            return mk_sym(('*', v[1]), v[2].r['inner'])
        return v

    def strip(self, st, v):
        """follow references and boxes to the underlying value"""
        for _ in range(8):
            if v[0] in ('ref', 'refv', 'box'):
                v = self.deref_val(st, v)
            else:
                break
        return v

    # ------------------------------------------------------------------ memory
    def read(self, st, loc, path, hint=None):
        v = st.mem.get(loc)
        if v is None:
            if loc[0] == 'D':
                v = mk_sym(('*', loc[1]), loc[2])
            else:
                v = ('sym', fresh('uninit'), hint)
        return self.proj(st, v, path, hint)

    def proj(self, st, v, path, hint=None):
        vn = None
        for n, p in enumerate(path):
            h = hint if n == len(path) - 1 else None
            k = p[0]
            if k == 'v':
                if v[0] == 'agg' and v[2] != p[1]:
                    return ('sym', fresh('wrongvariant'), hint)
                vn = p[1]
            elif k == 'f':
                v = self.field(st, v, p[1], vn, h or (p[2] if len(p) > 2 else None))
                vn = None
            elif k == 'b':
                v = v[1] if v[0] == 'box' else v
            elif k == 'e':
                v = self.elem(st, v, p[1])
            elif k == 'sl':
                v = self.mk_view(st, v, p[1], p[2])
        return v

    def field(self, st, v, i, vn=None, hint=None):
        if v[0] == 'agg':
            if i < len(v[3]):
                return v[3][i]
            return ('sym', fresh('fld'), hint)
        if v[0] in ('box', 'boxref', 'refv'):
            return v
        if v[0] == 'sym':
            ty = v[2]
            ft = hint
            if ty is not None:
                if self.fieldswap and ty.k == 'adt' and ty.r['path'] in self.fieldswap:
                    i = self.fieldswap[ty.r['path']].get(i, i)
                if ty.k == 'adt' and ty.r.get('variants') and ty.r.get('has_fields'):
                    vs = ty.r['variants'][vn or 0]
                    if i < len(vs['fields']):
                        ft = vs['fields'][i]['ty']
                elif ty.k in ('tuple', 'closure'):
                    ft = ty.r['elems'][i]
            if ft is None:
                return ('sym', ('fld', v[1], vn or 0, i), None)
            return mk_sym(('fld', v[1], vn or 0, i), ft)
        return ('sym', fresh('fld'), hint) if hint is None else mk_sym(fresh('fld'), hint)

    def put(self, st, v, path, new, tyhint=None):
        """functional update"""
        if not path:
            return new
        p = path[0]
        k = p[0]
        if k == 'v':
            if v[0] == 'agg' and v[2] == p[1]:
                return self.put(st, v, path[1:], new)
            if v[0] == 'sym':
                ty = v[2]
                nf = len(ty.r['variants'][p[1]]['fields']) if ty is not None and ty.k == 'adt' and ty.r.get('has_fields') else 0
                a = ('agg', ty, p[1], tuple(self.field(st, v, i, p[1]) for i in range(nf)))
                return self.put(st, a, path[1:], new)
            return v
        if k == 'f':
            if v[0] == 'sym':
                ty = v[2]
                n = 0
                if ty is not None:
                    if ty.k == 'adt' and ty.r.get('has_fields') and len(ty.r['variants']) == 1:
                        n = len(ty.r['variants'][0]['fields'])
                    elif ty.k in ('tuple', 'closure'):
                        n = len(ty.r['elems'])
                n = max(n, p[1] + 1)
                v = ('agg', ty, 0, tuple(self.field(st, v, i) for i in range(n)))
            if v[0] == 'agg':
                fs = list(v[3])
                while len(fs) <= p[1]:
                    fs.append(('sym', fresh('uninit'), None))
                fs[p[1]] = self.put(st, fs[p[1]], path[1:], new)
                return ('agg', v[1], v[2], tuple(fs))
            return v
        if k == 'b':
            if v[0] == 'box':
                return ('box', self.put(st, v[1], path[1:], new))
            return ('box', new) if len(path) == 1 else v
        if k == 'e':
            if v[0] == 'box':
                return ('box', self.put(st, v[1], path, new))
            old = self.elem(st, v, p[1])
            nv = self.put(st, old, path[1:], new)
            ix = st.canon(p[1])
            if v[0] == 'seq':
                _, vid, ety, base, blen, tail, puts = v
                if base is None and is_const(ix) and 0 <= ix[0] < len(tail) and not puts:
                    return ('seq', vid, ety, base, blen, tail[:ix[0]] + (nv,) + tail[ix[0] + 1:], puts)
                return ('seq', vid, ety, base, blen, tail, (puts + ((ix, nv),))[-12:])
            if v[0] in ('sym', 'isym'):
                ety = elem_ty(v[2]) if v[0] == 'sym' else v[2]
                return ('seq', ('of', v[1]), ety, v[1], self.seqlen(st, v), (), ((ix, nv),))
            return v
        return v

    def write(self, st, loc, path, val):
        v = st.mem.get(loc)
        if not path:
            st.mem[loc] = val
            return
        if v is None:
            if loc[0] == 'D':
                v = mk_sym(('*', loc[1]), loc[2])
            else:
                v = ('sym', fresh('uninit'), self.loc_ty(loc))
        st.mem[loc] = self.put(st, v, path, val)

    def loc_ty(self, loc):
        if loc[0] == 'L' and self.stack:
            f = self.frames[loc[1]] if loc[1] < len(self.frames) else None
            if f is not None and loc[2] < len(f.locals):
                return f.locals[loc[2]]
        return None

    frames = []

    def mk_view(self, st, v, lo, hi):
        if v[0] == 'box':
            v = v[1]
        if v[0] == 'view':
            return ('view', v[1], add(v[2], lo), add(v[2], hi))
        return ('view', v, lo, hi)

    # ------------------------------------------------------------------ places
    def resolve(self, st, fn, d, place):
        """-> ('mem', loc, path) or ('val', value, rest_path)"""
        loc = ('L', d, place[0])
        path = ()
        val = None
        for e in place[1]:
            k = e[0]
            if k == '*':
                v = self.read(st, loc, path) if val is None else val[0]
                if v[0] == 'ref':
                    loc, path, val = v[1], v[2], None
                elif v[0] == 'refv':
                    val = (v[1],)
                elif v[0] == 'box':
                    if val is None:
                        path = path + (('b',),)
                    else:
                        val = (v[1],)
                elif v[0] == 'boxref':
                    loc, path, val = v[1], v[2] + (('b',),), None
                elif v[0] == 'sym':
                    val = (mk_sym(('*', v[1]), v[2].r['inner']) if v[2] is not None and v[2].k in ('ref', 'ptr') else ('sym', ('*', v[1]), None),)
                else:
                    val = (v,)
                continue
            if k == 'f':
                p = ('f', e[1], fn.T[e[2]])
                p = ('f', e[1])
                hint = fn.T[e[2]]
                if val is None:
                    path = path + (p,)
                    self._hint = hint
                else:
                    val = (self.proj(st, val[0], (p,), hint) if val[0][0] != 'variant' else self.field(st, val[0][1], e[1], val[0][2], hint),)
            elif k == 'v':
                if val is None:
                    path = path + (('v', e[1]),)
                else:
                    val = (('variant', val[0], e[1]),)
            elif k == 'i':
                iv = self.read(st, ('L', d, e[1]), ())
                ix = self.as_lin(st, iv)
                if val is None:
                    path = path + (('e', ix),)
                else:
                    val = (self.elem(st, val[0], ix),)
            elif k == 'c':
                if e[3]:
                    v = val[0] if val is not None else self.read(st, loc, path)
                    n = self.seqlen(st, v)
                    ix = addc(n, -e[1]) if n is not None else const(0)
                else:
                    ix = const(e[1])
                if val is None:
                    path = path + (('e', ix),)
                else:
                    val = (self.elem(st, val[0], ix),)
            elif k == 's':
                v = val[0] if val is not None else self.read(st, loc, path)
                n = self.seqlen(st, v) or ZERO
                hi = addc(n, -e[2]) if e[3] else const(e[2])
                if val is None:
                    path = path + (('sl', const(e[1]), hi),)
                else:
                    val = (self.mk_view(st, val[0], const(e[1]), hi),)
        if val is not None:
            return ('val', val[0])
        return ('mem', loc, path)

    def read_place(self, st, fn, d, place):
        r = self.resolve(st, fn, d, place)
        hint = None
        if place[1] and place[1][-1][0] == 'f':
            hint = fn.T[place[1][-1][2]]
        if r[0] == 'val':
            v = r[1]
            return v[1] if v[0] == 'variant' else v
        return self.read(st, r[1], r[2], hint)

    def place_ty(self, fn, place):
        t = fn.locals[place[0]]
        for e in place[1]:
            if t is None:
                return None
            if e[0] == 'f':
                t = fn.T[e[2]]
            elif e[0] == '*':
                t = t.r.get('inner') or (t.r['args'][0] if t.k == 'adt' and t.r.get('args') else None)
            elif e[0] in ('i', 'c'):
                t = elem_ty(t)
        return t

    def as_lin(self, st, v):
        if v[0] == 'int':
            return v[1]
        if v[0] in ('ref', 'refv'):
            return self.as_lin(st, self.strip(st, v))
        if v[0] == 'bool':
            d = st.decide(v[1])
            if d is not None:
                return const(1 if d else 0)
        return var(atom(fresh('int'), None, None, True))

    # ------------------------------------------------------------------ operands
    def operand(self, st, fn, d, op):
        k = op['k']
        if k in ('copy', 'move'):
            pl = op['p']
            if k == 'copy':
                t = self.place_ty(fn, pl)
                if t is not None and t.k == 'adt' and t.r['path'] == 'alloc::boxed::Box':
                    r = self.resolve(st, fn, d, pl)
                    if r[0] == 'mem':
                        return ('boxref', r[1], r[2])
                    v = self.read_place(st, fn, d, pl)
                    if v[0] == 'box':
                        # the compiler's copy of a box behind a shared reference: what it owns
                        return ('refv', v[1])
                    return v
            return self.read_place(st, fn, d, pl)
        if k == 'const':
            return self.constant(st, fn, op)
        if k == 'rtcheck':
            return ('bool', TRUE)
        return ('sym', fresh('op'), None)

    def constant(self, st, fn, op):
        ty = fn.T[op['ty']]
        if 'fn' in op:
            return ('fnv', FnRef(op['fn'], fn.T))
        if 'int' in op:
            if ty.k == 'bool':
                return ('bool', TRUE if op['int'] else FALSE)
            if ty.k == 'adt':
                return ('agg', ty, 0, (('int', const(op['int'])),)) if False else ('sym', ('const', ty.name, op['int']), ty)
            return ('int', const(op['int']))
        if 'str' in op:
            return ('refv', ('str', ('lit', op['str'])))
        if 'bytes' in op:
            b = bytes(op['bytes'])
            return ('refv', ('str', ('lit', b.decode('latin1'), 'b')))
        if op.get('zst'):
            if ty.k == 'adt' and ty.r.get('variants') is not None:
                return ('agg', ty, 0, ())
            if ty.k == 'closure':
                return ('agg', ty, 0, ())
            return UNIT
        if 'promoted' in op:
            key = f"{fn.key}::promoted[{op['promoted']}]"
            pf = self.p.fns.get(key)
            if pf is not None:
                n = len(self.stack)
                rs = self.exec_fn(st, pf, [])
                if len(rs) == 1:
                    v = rs[0][1]
                    if v[0] == 'ref' and v[1][0] == 'L':
                        v = ('refv', self.read(rs[0][0], v[1], v[2]))
                    # copy D/other memory produced is irrelevant: constants
                    return v
            return ('sym', ('const', key), ty)
        nm = op.get('named') or op.get('opaque') or '?'
        if nm.endswith('Vec::<T>::new') or 'ARRAY_REPEAT_VALUE' in nm:
            if ty.k == 'adt' and ty.r['path'] == 'alloc::vec::Vec':
                return ('seq', ('v', 'const', nm), ty.r['args'][0], None, ZERO, (), ())
        return mk_sym(('const', nm), ty)

    # ------------------------------------------------------------------ rvalues
    def rvalue(self, st, fn, d, rv, line):
        """-> list of (state, value)"""
        k = rv[0]
        if k == 'use':
            return [(st, self.operand(st, fn, d, rv[1]))]
        if k in ('ref', 'reborrow'):
            pl = rv[2]
            r = self.resolve(st, fn, d, pl)
            if r[0] == 'val':
                v = r[1]
                return [(st, ('refv', v[1] if v[0] == 'variant' else v))]
            return [(st, ('ref', r[1], r[2]))]
        if k == 'bin':
            a = self.operand(st, fn, d, rv[2])
            b = self.operand(st, fn, d, rv[3])
            return self.binop(st, rv[1], a, b, fn.T[rv[4]])
        if k == 'un':
            a = self.operand(st, fn, d, rv[2])
            t = fn.T[rv[3]]
            if rv[1] == 'Not':
                if a[0] == 'bool':
                    return [(st, ('bool', fnot(a[1])))]
                return [(st, self.opaque(t, 'not'))]
            if rv[1] == 'Neg':
                return [(st, ('int', neg(self.as_lin(st, a))))]
            if rv[1] == 'PtrMetadata':
                v = self.strip(st, a)
                n = self.seqlen(st, v)
                if n is not None:
                    return [(st, ('int', n))]
            return [(st, self.opaque(self.p.types.get('usize'), 'un'))]
        if k == 'cast':
            if rv[1] == 'BoxDerefTransmute' and rv[2]['k'] in ('copy', 'move') and rv[2]['p'][1] and rv[2]['p'][1][-1][0] == 'f':
                # the place a box owns
                r = self.resolve(st, fn, d, [rv[2]['p'][0], rv[2]['p'][1][:-1]])
                if r[0] == 'mem' and self.read(st, r[1], r[2])[0] == 'box':
                    return [(st, ('ref', r[1], r[2] + (('b',),)))]
            a = self.operand(st, fn, d, rv[2])
            return self.cast(st, rv[1], a, fn.T[rv[3]], fn.T[rv[4]])
        if k == 'discr':
            v = self.read_place(st, fn, d, rv[1])
            return [(st, self.discr(st, v, fn.T[rv[2]]))]
        if k == 'agg':
            vals = tuple(self.operand(st, fn, d, o) for o in rv[4])
            t = fn.T[rv[2]]
            if rv[1] == 'array':
                return [(st, ('seq', ('arr', fn.key, line), t.r['inner'], None, ZERO, vals, ()))]
            if rv[1] == 'rawptr':
                return [(st, vals[0] if vals else ('sym', fresh('ptr'), t))]
            return [(st, ('agg', t, rv[3], vals))]
        if k == 'repeat':
            v = self.operand(st, fn, d, rv[1])
            ety = fn.T[rv[1]['ty']] if rv[1]['k'] == 'const' else self.place_ty(fn, rv[1]['p'])
            n = rv[2]
            if n is not None and n <= 8:
                return [(st, ('seq', ('arr', fn.key, line), ety, None, ZERO, (v,) * n, ()))]
            if n is not None:
                return [(st, ('seq', ('arr', fn.key, line), ety, ('gen', ('once', v), ZERO), const(n), (), ()))]
            return [(st, ('sym', fresh('repeat'), None))]
        return [(st, ('sym', fresh('rv'), None))]

    def discr(self, st, v, ty):
        if v[0] == 'agg':
            t = v[1] or ty
            if t is not None and t.k == 'adt' and t.r.get('variants') and v[2] < len(t.r['variants']):
                return ('int', const(signed_discr(t, t.r['variants'][v[2]]['discr'])))
            return ('int', const(v[2]))
        if v[0] == 'sym':
            vs = (v[2] or ty)
            lo, hi = None, None
            if vs is not None and vs.k == 'adt' and vs.r.get('variants'):
                ds = [signed_discr(vs, x['discr']) for x in vs.r['variants']]
                lo, hi = min(ds), max(ds)
            return ('int', var(atom(('discr', v[1]), lo, hi)))
        return ('int', var(atom(fresh('discr'), None, None, True)))

    def cast(self, st, kind, a, frm, to):
        if kind.startswith('IntToInt'):
            if frm.k == 'bool':
                if a[0] == 'bool':
                    return [(s, ('int', const(1))) for s in st.assume(a[1], True)] + [(s, ('int', const(0))) for s in st.assume(a[1], False)]
                return [(st, self.opaque(to, 'cast'))]
            if frm.k == 'adt' or to.k == 'char':
                if frm.k == 'adt':
                    return [(st, self.discr(st, a, frm))]
            l = self.as_lin(st, a)
            lo, hi = int_range(to)
            return self.int_cast(st, l, frm, to)
        if kind == 'BoxDerefTransmute' or kind.startswith('Transmute'):
            if a[0] == 'boxref':
                return [(st, ('ref', a[1], a[2] + (('b',),)))]
            if a[0] == 'box':
                return [(st, ('refv', a[1]))]
            return [(st, a)]
        if kind.startswith('PointerCoercion') or kind.startswith('PtrToPtr'):
            return [(st, a)]
        return [(st, self.opaque(to, 'cast'))]

    def int_cast(self, st, l, frm, to):
        fs, ts = frm.r.get('signed', False), to.r.get('signed', False)
        fb, tb = frm.r.get('bits', 32), to.r.get('bits', 32)
        if not fs and ts and tb >= fb and tb >= 64:
            return [(st, ('int', l))]            # sizes stay below 2^62
        if not fs and (tb > fb or (tb == fb and not ts)):
            return [(st, ('int', l))]
        if fs and ts and tb >= fb:
            return [(st, ('int', l))]
        lo, hi = (0, (1 << tb) - 1) if not ts else (-(1 << (tb - 1)), (1 << (tb - 1)) - 1)
        out = []
        fits = fge(addc(l, -lo))
        if not (tb >= 64):
            fits = fand(fits, fge(addc(neg(l), hi)))
        for s in st.assume(fits, True):
            out.append((s, ('int', l)))
        if fs and not ts:
            for s in st.assume(fge(l), False):
                if tb >= 64:
                    out.append((s, ('int', addc(l, 1 << 64))))
                else:
                    out.append((s, mk_int(('trunc', l, tb), to)))
        if tb < 64:
            for s in st.assume(fge(addc(neg(l), hi)), False):
                out.append((s, mk_int(('trunc', l, tb), to)))
        return out

    def item_term(self, l):
        """content term if l is exactly one byte item"""
        if l[0] == 0 and len(l[1]) == 1 and l[1][0][1] == 1:
            t = LA.term_of(l[1][0][0])
            if t in INT_ITEM:
                return t
        return None

    def binop(self, st, op, a, b, ty):
        base = op.replace('WithOverflow', '').replace('Unchecked', '')
        if base in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            if a[0] == 'bool' and b[0] == 'bool':
                fa, fb = a[1], b[1]
                e = for_(fand(fa, fb), fand(fnot(fa), fnot(fb)))
                if fb in (TRUE, FALSE):
                    e = fa if fb == TRUE else fnot(fa)
                if base == 'Eq':
                    return [(st, ('bool', e))]
                if base == 'Ne':
                    return [(st, ('bool', fnot(e)))]
                return [(st, ('bool', ('b', fresh('cmp'))))]
            if a[0] == 'int' and b[0] == 'int':
                la, lb = a[1], b[1]
                ta, tb = self.item_term(st.canon(la)), self.item_term(st.canon(lb))
                if base in ('Eq', 'Ne') and ta is not None and tb is not None:
                    f = ('ceq',) + tuple(sorted((ta, tb), key=repr))
                    return [(st, ('bool', f if base == 'Eq' else fnot(f)))]
                x = sub(la, lb)
                f = {'Eq': lambda: feq(x), 'Ne': lambda: fnot(feq(x)), 'Lt': lambda: fge(addc(neg(x), -1)), 'Le': lambda: fge(neg(x)),
                     'Gt': lambda: fge(addc(x, -1)), 'Ge': lambda: fge(x)}[base]()
                return [(st, ('bool', f))]
            return [(st, ('bool', ('b', ('u', 'cmp', op, a, b))))]
        ov = op.endswith('WithOverflow')
        if ty.k == 'bool' and a[0] == 'bool' and b[0] == 'bool':
            if base == 'BitAnd':
                return [(st, ('bool', fand(a[1], b[1])))]
            if base == 'BitOr':
                return [(st, ('bool', for_(a[1], b[1])))]
            if base == 'BitXor':
                e = for_(fand(a[1], fnot(b[1])), fand(fnot(a[1]), b[1]))
                return [(st, ('bool', e))]
        if a[0] != 'int' or b[0] != 'int':
            la, lb = self.as_lin(st, a), self.as_lin(st, b)
        else:
            la, lb = a[1], b[1]
        r = None
        if base == 'Add':
            r = add(la, lb)
        elif base == 'Sub':
            r = sub(la, lb)
        elif base == 'Mul':
            ca, cb = st.canon(la), st.canon(lb)
            if is_const(ca):
                r = LA.scale(lb, ca[0])
            elif is_const(cb):
                r = LA.scale(la, cb[0])
        elif base in ('Div', 'Rem'):
            cb = st.canon(lb)
            if is_const(cb) and cb[0] > 0:
                q = var(atom(('div', st.canon(la), cb[0]), None, None))
                if st.ent_ge(la):
                    s = st.copy()
                    s.ge(sub(la, LA.scale(q, cb[0])))
                    s.ge(addc(sub(LA.scale(q, cb[0]), la), cb[0] - 1))
                    s.ge(q)
                    return [(s, ('int', q if base == 'Div' else sub(la, LA.scale(q, cb[0]))))]
        if r is None:
            v = mk_int(('arith', base, st.canon(la), st.canon(lb)), ty) if not ov else None
            if ov:
                v = ('agg', None, 0, (mk_int(('arith', base, st.canon(la), st.canon(lb)), ty), ('bool', ('b', ('ovf', base, st.canon(la), st.canon(lb))))))
            return [(st, v)]
        if ov:
            return [(st, ('agg', None, 0, (('int', r), ('bool', self.overflow(st, base, r, ty)))))]
        if op.endswith('Unchecked'):
            return [(st, ('int', r))]
        return [(st, ('int', r))]

    def parsed_atom(self, i):
        t = LA.term_of(i)
        return isinstance(t, tuple) and t[:1] == ('parsed',)

    def overflow(self, st, base, r, ty):
        lo, hi = int_range(ty)
        bits, signed = ty.r['bits'], ty.r['signed']
        fs = FALSE
        if not signed:
            if base != 'Add':
                fs = for_(fs, fnot(fge(r)))
            c = st.canon(r)
            if bits < 64 or c[0] >= 1 << 62 or any(self.parsed_atom(i) for i, _ in c[1]):
                fs = for_(fs, fnot(fge(addc(neg(r), hi))))
        elif bits < 64:
            fs = for_(fnot(fge(addc(r, -lo))), fnot(fge(addc(neg(r), hi))))
        return fs

    # ------------------------------------------------------------------ calls
    def call_value(self, st, f, args, rt):
        """call a closure / fn item value with already-untupled arguments"""
        f0 = f
        if f[0] in ('ref', 'refv'):
            f = self.strip(st, f)
        if f[0] == 'fnv':
            return self.call(st, f[1], args, rt)
        if f[0] == 'agg' and f[1] is not None and f[1].k == 'closure':
            body = self.p.fns.get(f[1].r['key'])
            if body is not None:
                selfty = body.locals[1]
                if selfty.k == 'ref':
                    if f0[0] == 'ref':
                        sv = f0
                        return self.exec_fn(st, body, [sv] + args)
                    s = st.copy()
                    loc = ('H', 'clo', len(self.frames))
                    s.mem[loc] = f
                    out = self.exec_fn(s, body, [('ref', loc, ())] + args)
                    for s2, _ in out:
                        s2.mem.pop(loc, None)
                    return out
                return self.exec_fn(st, body, [f] + args)
        self.unk('indirect call')
        return [(st, self.opaque(rt, 'call') if rt is not None else ('sym', fresh('call'), None))]

    def call(self, st, c, args, rt):
        """c: FnRef; -> list of (state, value)"""
        self.calls_seen += 1
        if self.prehook is not None:
            r = self.prehook(self, st, c, args, rt)
            if r is not None:
                return r
        for k in (c.key, c.rpath, c.path):
            h = self.hooks.get(k)
            if h is not None:
                r = h(self, st, c, args, rt)
                if r is not None:
                    return r
        if c.ctor:
            return [(st, ('agg', rt, self.ctor_variant(c, rt), tuple(args)))]
        if c.closure and c.key in self.p.fns:
            body = self.p.fns[c.key]
            # Fn*/call with tupled args
            if c.name in ('call', 'call_mut', 'call_once') and len(args) == 2 and body.argc != 2 or (c.trait and c.trait.startswith('core::ops::function::Fn')):
                t = args[1]
                un = list(t[3]) if t[0] == 'agg' else [t]
                return self.call_value(st, args[0], un, rt)
        m = self.models.lookup(self, c)
        if m is not None:
            r = m(self, st, c, args, rt)
            if r is not None:
                return r
        fn = self.p.fns.get(c.key)
        if fn is not None and len(self.frames) < self.maxdepth and not (self.noinline and self.noinline(fn)):
            if sum(1 for f in self.frames if f is fn) >= 2:
                self.unk('recursion ' + fn.path)
            else:
                return self.exec_fn(st, fn, args)
        return self.models.unknown_call(self, st, c, args, rt)

    def ctor_variant(self, c, rt):
        if rt is not None and rt.k == 'adt':
            for i, v in enumerate(rt.r.get('variants') or []):
                if v['name'] == c.name and rt.r['kind'] == 'enum':
                    return i
        return 0

    # ------------------------------------------------------------------ functions
    def cfg(self, fn):
        if fn.cfg is None:
            fn.cfg = CFG(fn)
        return fn.cfg

    def exec_fn(self, st, fn, args):
        self.analysed[fn.key] = self.analysed.get(fn.key, 0) + 1
        d = len(self.frames)
        self.frames = self.frames + [fn]
        st = st.copy()
        for l in [l for l in st.mem if l[0] == 'L' and l[1] >= d]:
            del st.mem[l]
        for i, a in enumerate(args):
            st.mem[('L', d, i + 1)] = a
        if fn.spread is not None and len(args) < fn.argc:
            pass
        cfg = self.cfg(fn)
        pending = {0: [st]}
        rets = []
        self.run_comps(fn, d, cfg.wto, pending, rets)
        out = []
        seen = set()
        for s in rets:
            v = s.mem.get(('L', d, 0))
            if v is None:
                rty = fn.locals[0]
                v = UNIT if rty.k == 'tuple' and not rty.r['elems'] else ('sym', fresh('ret'), rty)
            if v[0] == 'ref' and v[1][0] == 'L' and v[1][1] >= d:
                v = ('refv', self.read(s, v[1], v[2]))
            h = self.on_return.get(fn.key)
            if h:
                h(self, s, v, args)
            s = s.copy()
            for l in [l for l in s.mem if l[0] == 'L' and l[1] >= d]:
                del s.mem[l]
            k = (s.key(), v)
            if k in seen:
                continue
            seen.add(k)
            out.append((s, v))
        self.frames = self.frames[:-1]
        if len(out) > self.cap:
            out = self.merge_results(out)
        return out

    def merge_results(self, out):
        from .join import join_states
        groups = {}
        for s, v in out:
            s = s.copy()
            s.mem[('R',)] = v
            groups.setdefault((shape(v), s.trace, frozenset(s.ghost.items())), []).append(s)
        res = []
        for g in groups.values():
            s = g[0] if len(g) == 1 else join_states(self, g, ('ret', len(self.frames)))
            s = s.copy()
            v = s.mem.pop(('R',), ('sym', fresh('ret'), None))
            res.append((s, v))
        return res

    def run_comps(self, fn, d, comps, pending, rets):
        for c in comps:
            if isinstance(c, int):
                sts = pending.pop(c, None)
                if sts:
                    for s in self.dedupe(fn, d, c, sts):
                        self.exec_block(fn, d, c, s, pending, rets)
            else:
                self.run_loop(fn, d, c, pending, rets)

    def dedupe(self, fn, d, bb, sts):
        cfg = self.cfg(fn)
        live = cfg.live[bb]
        out = []
        seen = set()
        for s in sts:
            dead = [l for l in s.mem if l[0] == 'L' and l[1] == d and l[2] not in live and l[2] not in cfg.addr]
            if dead:
                s = s.copy()
                for l in dead:
                    del s.mem[l]
            k = s.key()
            if k not in seen:
                seen.add(k)
                out.append(s)
        if len(out) > self.cap:
            from .join import reduce_states
            out = reduce_states(self, out, ('bb', d, bb), self.cap)
        return out

    def run_loop(self, fn, d, comp, pending, rets):
        head, inner, blocks = comp
        entry = pending.pop(head, None)
        if not entry:
            return
        cur = self.dedupe(fn, d, head, entry)

        def once(states, quiet):
            p = {}
            r = [] if quiet else rets
            if quiet:
                self.silent += 1
                nt = len(self.terminals)
            self.loopstack.append((d, head))
            try:
                back = []
                hp = {}
                for s in states:
                    self.exec_block(fn, d, head, s, hp, r)
                back += hp.pop(head, [])
                out = {}
                for b, ss in hp.items():
                    (p if b in blocks else out).setdefault(b, []).extend(ss)
                # inner blocks: jumps to head are back edges
                self.run_inner(fn, d, inner, p, r, head, back, out, blocks)
            finally:
                self.loopstack.pop()
                if quiet:
                    self.silent -= 1
                    del self.terminals[nt:]
            if not quiet:
                for b, ss in out.items():
                    pending.setdefault(b, []).extend(ss)
            if self.on_back is not None:
                for s in back:
                    self.on_back(self, s, d, head)
            return self.dedupe(fn, d, head, back)

        def havoc(s):
            from .join import havoc_loop
            return havoc_loop(self, s, fn, d, comp, ('loop', fn.key, d, head))

        self.fixpoint(cur, once, havoc, ('loop', fn.key, d, head), d, fn.path)

    def fixpoint(self, cur, once, havoc, tag, d, where):
        """peel a few rounds, then one invariant state per shape until it is stable"""
        from .join import join_states, leq, shape_key
        for it in range(self.peel):
            cur = once(cur, False)
            if not cur:
                return
        groups = {}

        def absorb(states, known, rnd=0):
            changed = False
            for s in states:
                k = shape_key(s, d)
                g = known.get(k)
                if g is None:
                    if len(known) >= 10:
                        # collapse into an arbitrary group
                        k = next(iter(known))
                        g = known[k]
                    else:
                        s2 = s.copy()
                        s2.wid += 1
                        known[k] = s2
                        changed = True
                        continue
                if leq(self, s, g):
                    continue
                known[k] = join_states(self, [g, s], tag + (hash(k) & 0xffff,), widen=rnd or True)
                changed = True
            return changed

        absorb(cur, groups)
        stable = False
        for rnd in range(9):
            back = once(list(groups.values()), True)
            if not absorb(back, groups, rnd + 1):
                stable = True
                break
        self.loops['stable' if stable else 'unstable'] += 1
        final = list(groups.values())
        if not stable:
            final = [havoc(s) for s in final]
            self.unk('loop without stable invariant in ' + where)
        once(final, False)

    def iterate(self, st, locs, step, where, caught=()):
        """loop driven by a library function: locs maps names to values kept in the state
        step(state) -> list of ('go', state) or ('stop', state, value); returns the stops"""
        d = len(self.frames) - 1
        key = self.sitekey()
        st = st.copy()
        for k, v in locs.items():
            st.mem[('H', k, key)] = v
        exits = []

        def once(states, quiet):
            back = []
            nt = len(self.terminals)
            if quiet:
                self.silent += 1
            try:
                for s in states:
                    for r in step(s, key):
                        if r[0] == 'go':
                            back.append(r[1])
                        elif not quiet:
                            exits.append(r[1:])
            finally:
                if quiet:
                    self.silent -= 1
                    del self.terminals[nt:]
            out, seen = [], set()
            for s in back:
                k = s.key()
                if k not in seen:
                    seen.add(k)
                    out.append(s)
            if len(out) > self.cap:
                from .join import reduce_states
                out = reduce_states(self, out, ('it', key), self.cap)
            return out

        def havoc(s):
            from . import models as MO
            s = s.copy()
            s.wid = max(s.wid, 1)
            MO.havoc_args(self, s, list(caught))
            for k, v in locs.items():
                v = s.mem[('H', k, key)]
                if v[0] == 'iter':
                    s.mem[('H', k, key)] = ('iter', v[1], var(atom(fresh('adv'), 0, LA.MAX, True)), v[3])
                else:
                    s.mem[('H', k, key)] = self.opaque(v[2], 'acc') if v[0] == 'sym' and v[2] is not None else ('int', var(atom(fresh('acc'), None, None, True))) if v[0] == 'int' else ('sym', fresh('acc'), None)
            for l in list(s.mem):
                if l[0] == 'G' and s.mem[l][0] == 'int':
                    s.mem[l] = ('int', var(atom(fresh('havoc'), None, None, True)))
            for g in s.ghost:
                if not g.startswith('_'):
                    s.ghost[g] = '?'
            return s

        self.fixpoint([st], once, havoc, ('it', key), d, where)
        out = []
        for s, v in exits:
            s = s.copy()
            for k in locs:
                s.mem.pop(('H', k, key), None)
            out.append((s, v))
        if len(out) > self.cap:
            out = self.merge_results(out)
        return out

    def run_inner(self, fn, d, comps, p, rets, head, back, out, blocks):
        for c in comps:
            if isinstance(c, int):
                sts = p.pop(c, None)
                if not sts:
                    continue
                tmp = {}
                for s in self.dedupe(fn, d, c, sts):
                    self.exec_block(fn, d, c, s, tmp, rets)
            else:
                tmp = {}
                q = {c[0]: p.pop(c[0], [])}
                if not q[c[0]]:
                    continue
                self.run_loop(fn, d, c, q, rets)
                tmp = q
            for b, ss in tmp.items():
                if b == head:
                    back += ss
                elif b in blocks:
                    p.setdefault(b, []).extend(ss)
                else:
                    out.setdefault(b, []).extend(ss)

    def exec_block(self, fn, d, bb, st, pending, rets):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Stop('step budget')
        if self.deadline is not None and self.steps % 64 == 0:
            import time
            if time.time() > self.deadline:
                raise Stop('time budget')
        blk = fn.blocks[bb]
        if blk is None:
            return
        stmts, term = blk[0], blk[1]
        cur = [st.copy()]
        for s_ in stmts:
            k = s_[0]
            if k == '=':
                nxt = []
                for st in cur:
                    for st2, v in self.rvalue(st, fn, d, s_[2], s_[3] if len(s_) > 3 else 0):
                        if st2 is st and len(cur) == 1:
                            pass
                        self.assign(st2, fn, d, s_[1], v)
                        nxt.append(st2)
                cur = nxt
            elif k == 'dead':
                for st in cur:
                    st.mem.pop(('L', d, s_[1]), None)
            elif k == 'setd':
                for st in cur:
                    r = self.resolve(st, fn, d, s_[1])
                    if r[0] == 'mem':
                        v = self.read(st, r[1], r[2])
                        ty = self.place_ty(fn, s_[1])
                        vi = s_[2]
                        fs = v[3] if v[0] == 'agg' else ()
                        self.write(st, r[1], r[2], ('agg', ty, vi, fs))
        if cur:
            self.visited.setdefault(fn.key, set()).add(bb)
        for st in cur:
            self.terminator(fn, d, bb, term, st, pending, rets)

    def assign(self, st, fn, d, place, v):
        r = self.resolve(st, fn, d, place)
        if r[0] == 'mem':
            self.write(st, r[1], r[2], v)
        else:
            self.unk('write through untracked pointer in ' + fn.path)

    def goto(self, pending, bb, st):
        pending.setdefault(bb, []).append(st)

    def panic(self, st, fn, kind, line, info=None):
        if self.on_panic:
            self.on_panic(self, st, fn, kind, line, info)
        self.terminals.append((st, 'panic', (kind, fn.key, line)))

    def terminator(self, fn, d, bb, t, st, pending, rets):
        k = t[0]
        if k == 'goto':
            self.goto(pending, t[1], st)
        elif k == 'return':
            rets.append(st)
        elif k == 'switch':
            v = self.operand(st, fn, d, t[1])
            self.switch(fn, d, t, v, st, pending)
        elif k == 'assert':
            c = self.operand(st, fn, d, t[1])
            f = c[1] if c[0] == 'bool' else ('b', fresh('assert'))
            ok = st.assume(f, t[2])
            bad = st.assume(f, not t[2])
            if not bad:
                self.asserts += 1
            oty = self.op_ty(fn, t[4][0]) if bad and t[4] else None
            for s in bad:
                self.panic(s, fn, t[3], t[6], (f, t[2], oty))
            for s in ok:
                self.goto(pending, t[5], s)
        elif k == 'drop':
            self.do_drop(fn, d, t, st)
            self.goto(pending, t[2], st)
        elif k == 'call':
            self.do_call(fn, d, t, st, pending)
        elif k in ('unreachable', 'unwind'):
            pass
        else:
            self.unk('terminator ' + k)

    def op_ty(self, fn, op):
        try:
            return self.place_ty(fn, op['p']) if op['k'] in ('copy', 'move') else fn.T[op['ty']]
        except (KeyError, IndexError, TypeError):
            return None

    def switch(self, fn, d, t, v, st, pending):
        if v[0] == 'bool':
            f = v[1]
            other = t[3]
            done = st
            for val, b in t[2]:
                for s in st.assume(f, val != 0):
                    self.goto(pending, b, s)
            vals = [x for x, _ in t[2]]
            if 0 not in vals:
                for s in st.assume(f, False):
                    self.goto(pending, other, s)
            if 1 not in vals:
                for s in st.assume(f, True):
                    self.goto(pending, other, s)
            return
        l = self.as_lin(st, v)
        rest = [st]
        ob = fn.blocks[t[3]]
        unreach = ob is not None and ob[1][0] == 'unreachable' and not ob[0]
        for n, (val, b) in enumerate(t[2]):
            ty = fn.T[t[4]]
            if ty.k == 'int' and ty.r['signed'] and val >= 1 << (ty.r['bits'] - 1):
                val -= 1 << ty.r['bits']
            f = feq(addc(l, -val))
            nr = []
            for s in rest:
                for s2 in s.assume(f, True):
                    self.goto(pending, b, s2)
                nr += s.assume(f, False)
            rest = nr
        if not unreach:
            for s in rest:
                self.goto(pending, t[3], s)

    def do_drop(self, fn, d, t, st):
        ty = fn.T[t[3]]
        r = self.resolve(st, fn, d, t[1])
        v = r[1] if r[0] == 'val' else self.read(st, r[1], r[2], ty)
        self.stack.append((fn, 0))
        self.models.dropped(self, st, v, ty)
        self.stack.pop()

    def do_call(self, fn, d, t, st, pending):
        _, fo, ao, dest, target, rt, line = t
        args = [self.operand(st, fn, d, a) for a in ao]
        args = [self.unbox(st, a) for a in args]
        rty = fn.T[rt]
        if 'fn' in fo:
            c = FnRef(fo['fn'], fn.T)
        else:
            f = self.operand(st, fn, d, fo)
            c = f
        self.stack.append((fn, line))
        n = len(self.frames)
        try:
            if isinstance(c, FnRef):
                res = self.call(st, c, args, rty)
            else:
                res = self.call_value(st, c, args, rty)
        finally:
            self.stack.pop()
            self.frames = self.frames[:n]
        if target is None:
            for s, v in res:
                # diverging call: models of exit/panic already recorded the end
                pass
            return
        for s, v in res:
            s = s.copy()
            self.assign(s, fn, d, dest, v)
            self.goto(pending, target, s)

    def unbox(self, st, a):
        if a[0] == 'boxref':
            return self.read(st, a[1], a[2])
        return a


class FnRef:
    """a resolved callee"""
    __slots__ = ('path', 'name', 'crate', 'args', 'trait', 'key', 'rpath', 'ctor', 'closure', 'rkind')
    _memo = {}

    def __new__(cls, c, T):
        k = (id(c), id(T))
        r = cls._memo.get(k)
        if r is not None and r[1] is c:
            return r[0]
        o = object.__new__(cls)
        o.path, o.name, o.crate = c['path'], c['name'], c['crate']
        o.args = [T[x] for x in c['args']]
        o.trait = c.get('trait')
        o.key = c.get('key')
        o.rpath = c.get('rpath') or c['path']
        o.ctor = c.get('ctor', False)
        o.closure = c.get('closure', False)
        o.rkind = c.get('rkind')
        cls._memo[k] = (o, c)
        return o

    def __init__(self, c, T):
        pass

    def __repr__(self):
        return f'<{self.key or self.path}>'


def shape(v, depth=3):
    if v[0] == 'agg':
        return ('agg', v[2]) + (tuple(shape(x, depth - 1) for x in v[3]) if depth else ())
    if v[0] == 'bool':
        return ('bool', v[1] if v[1] in (TRUE, FALSE) else '?')
    if v[0] == 'map':
        return ('map', v[3] is None)
    return v[0]


class CFG:
    def __init__(self, fn):
        n = len(fn.blocks)
        self.succ = {}
        for i, b in enumerate(fn.blocks):
            if b is None:
                self.succ[i] = []
                continue
            t = b[1]
            k = t[0]
            if k == 'goto':
                s = [t[1]]
            elif k == 'switch':
                s = [x[1] for x in t[2]] + [t[3]]
            elif k == 'assert':
                s = [t[5]]
            elif k == 'drop':
                s = [t[2]]
            elif k == 'call':
                s = [t[4]] if t[4] is not None else []
            else:
                s = []
            self.succ[i] = list(dict.fromkeys(s))
        reach = []
        seen = {0}
        st = [0]
        while st:
            x = st.pop()
            reach.append(x)
            for y in self.succ[x]:
                if y not in seen:
                    seen.add(y)
                    st.append(y)
        self.reach = seen
        self.wto = self._wto(seen, 0, {x: self.succ[x] for x in seen})
        self._liveness(fn)

    def _wto(self, nodes, entry, succ):
        """components in topological order; loops are (head, inner wto, blockset)"""
        index, low, onst, stack, sccs = {}, {}, set(), [], []
        cnt = [0]

        def strong(v0):
            work = [(v0, iter(succ.get(v0, ())))]
            index[v0] = low[v0] = cnt[0]
            cnt[0] += 1
            stack.append(v0)
            onst.add(v0)
            while work:
                v, it = work[-1]
                adv = False
                for w in it:
                    if w not in nodes:
                        continue
                    if w not in index:
                        index[w] = low[w] = cnt[0]
                        cnt[0] += 1
                        stack.append(w)
                        onst.add(w)
                        work.append((w, iter(succ.get(w, ()))))
                        adv = True
                        break
                    elif w in onst:
                        low[v] = min(low[v], index[w])
                if adv:
                    continue
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == index[v]:
                    comp = []
                    while True:
                        w = stack.pop()
                        onst.discard(w)
                        comp.append(w)
                        if w == v:
                            break
                    sccs.append(comp)

        strong(entry)
        for x in nodes:
            if x not in index:
                strong(x)
        sccs.reverse()
        out = []
        for comp in sccs:
            if len(comp) == 1 and comp[0] not in succ.get(comp[0], ()):
                out.append(comp[0])
                continue
            cs = set(comp)
            # head: target of an edge from outside, else smallest index
            heads = [x for x in comp if x == entry or any(x in succ.get(y, ()) for y in nodes if y not in cs)]
            head = min(heads, key=lambda x: index[x]) if heads else min(comp, key=lambda x: index[x])
            inner = cs - {head}
            isucc = {x: [y for y in succ.get(x, ()) if y in inner] for x in inner}
            iw = []
            if inner:
                # order: topological from successors of head
                ent = [y for y in succ.get(head, ()) if y in inner]
                isucc2 = dict(isucc)
                isucc2[-1] = ent
                iw = self._wto(inner | {-1}, -1, isucc2)
                iw = [c for c in iw if c != -1]
            out.append((head, iw, cs))
        return out

    def _liveness(self, fn):
        use, deff, addr = {}, {}, set()

        def pl_uses(p, u):
            u.add(p[0])
            for e in p[1]:
                if e[0] == 'i':
                    u.add(e[1])

        def op_uses(o, u):
            if o['k'] in ('copy', 'move'):
                pl_uses(o['p'], u)

        def rv_uses(rv, u):
            k = rv[0]
            if k == 'use':
                op_uses(rv[1], u)
            elif k in ('ref', 'reborrow'):
                pl_uses(rv[2], u)
                if not any(e[0] == '*' for e in rv[2][1]):
                    addr.add(rv[2][0])
            elif k == 'bin':
                op_uses(rv[2], u)
                op_uses(rv[3], u)
            elif k in ('un', 'cast'):
                op_uses(rv[2], u)
                if k == 'cast' and rv[2]['k'] in ('copy', 'move'):
                    pass
            elif k == 'discr':
                pl_uses(rv[1], u)
            elif k == 'agg':
                for o in rv[4]:
                    op_uses(o, u)
            elif k == 'repeat':
                op_uses(rv[1], u)

        for i in self.reach:
            b = fn.blocks[i]
            u, df = set(), set()
            if b is not None:
                for s in b[0]:
                    if s[0] == '=':
                        x = set()
                        rv_uses(s[2], x)
                        # a copied Box is a pointer into the place it came from
                        if s[2][0] == 'use' and s[2][1]['k'] == 'copy' and not any(e[0] == '*' for e in s[2][1]['p'][1]):
                            t = fn.locals[s[2][1]['p'][0]]
                            if 'Box<' in t.name:
                                addr.add(s[2][1]['p'][0])
                        if s[1][1]:
                            pl_uses(s[1], x)
                        u |= (x - df)
                        if not s[1][1]:
                            df.add(s[1][0])
                    elif s[0] == 'setd':
                        x = set()
                        pl_uses(s[1], x)
                        u |= x - df
                t = b[1]
                x = set()
                if t[0] == 'switch':
                    op_uses(t[1], x)
                elif t[0] == 'assert':
                    op_uses(t[1], x)
                elif t[0] == 'drop':
                    pl_uses(t[1], x)
                elif t[0] == 'call':
                    if t[1]['k'] != 'const':
                        op_uses(t[1], x)
                    for a in t[2]:
                        op_uses(a, x)
                    if t[3][1]:
                        pl_uses(t[3], x)
                elif t[0] == 'return':
                    x.add(0)
                u |= x - df
                if t[0] == 'call' and not t[3][1]:
                    df.add(t[3][0])
            use[i], deff[i] = u, df
        live = {i: set() for i in self.reach}
        ch = True
        order = list(self.reach)
        while ch:
            ch = False
            for i in order:
                o = set()
                for s in self.succ[i]:
                    o |= live[s]
                n = use[i] | (o - deff[i])
                if n != live[i]:
                    live[i] = n
                    ch = True
        self.live = live
        self.addr = addr
