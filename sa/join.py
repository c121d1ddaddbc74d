"""Join, widening and inclusion for abstract states.

Values are joined by anti-unification: positions at which the two states differ
become fresh atoms w with theta_k(w) = the value in state k.  The joined
constraint system consists of
  * all affine equalities valid in both states (kernel computation, Karr 1976),
  * those inequalities of either state (rewritten over the fresh atoms), and of
    a small template set, that hold in both,
  * those item-equality facts of either state that hold in both.
"""
from fractions import Fraction
from math import gcd
from . import lin as LA
from .lin import atom, var, add, sub, addc, neg, scale, is_const, ZERO
from . import interp as IP


def is_lin(x):
    return isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], tuple) \
        and (not x[1] or (isinstance(x[1][0], tuple) and len(x[1][0]) == 2 and isinstance(x[1][0][0], int)))


# ---------------------------------------------------------------- atoms used
def term_atoms(t, out):
    """ids of atoms occurring (as index expressions) inside a term"""
    if is_lin(t):
        lin_atoms(t, out)
    elif isinstance(t, tuple):
        for x in t:
            if isinstance(x, tuple):
                term_atoms(x, out)


def lin_atoms(l, out):
    for i, _ in l[1]:
        if i not in out:
            out.add(i)
            t = LA.term_of(i)
            if isinstance(t, tuple):
                term_atoms(t, out)


WMEMO = {}


def has_w(t):
    """does a term contain widened names?"""
    if not isinstance(t, tuple):
        return False
    r = WMEMO.get(t)
    if r is None:
        if t and t[0] == 'w':
            r = True
        elif is_lin(t):
            r = any(has_w(LA.term_of(i)) for i, _ in t[1])
        else:
            r = any(has_w(x) for x in t if isinstance(x, tuple))
        WMEMO[t] = r
    return r


def lin_has_w(l):
    return any(has_w(LA.term_of(i)) for i, _ in l[1])


# ---------------------------------------------------------------- substitution
def subst_term(t, th, tt):
    """substitute atoms (th: id->Lin) and terms (tt: term->term) inside a term"""
    if not isinstance(t, tuple):
        return t
    if t in tt:
        return tt[t]
    if is_lin(t):
        return subst_lin(t, th, tt)
    ch = False
    out = []
    for x in t:
        if isinstance(x, tuple):
            y = subst_term(x, th, tt)
            ch = ch or (y is not x and y != x)
            out.append(y)
        else:
            out.append(x)
    return tuple(out) if ch else t


def subst_lin(l, th, tt):
    r = (l[0], ())
    ch = False
    for i, c in l[1]:
        if i in th:
            r = add(r, scale(th[i], c))
            ch = True
            continue
        t = LA.term_of(i)
        t2 = subst_term(t, th, tt) if isinstance(t, tuple) else t
        if t2 != t:
            if is_lin(t2):
                r = add(r, scale(t2, c))
            else:
                lo, hi = LA.RANGE[i]
                r = add(r, scale(var(atom(t2, lo, hi, IP.imprecise_term(t2))), c))
            ch = True
        else:
            r = add(r, (0, ((i, c),)))
    return r if ch else l


# ---------------------------------------------------------------- anti-unification
class AU:
    def __init__(self, I, s1, s2, tag):
        self.I, self.s1, self.s2, self.tag = I, s1, s2, tag
        self.n = 0
        self.lmemo = {}          # (l1,l2) reps -> Lin
        self.slots = []          # (atom id, l1, l2)
        self.tmemo = {}
        self.tw = []             # (term, t1, t2)
        used = set()
        for s in (s1, s2):
            used |= s.cons.atoms()
        self.used = used
        self.slotset = {}

    def fresh_term(self):
        while True:
            t = ('w', self.tag, self.n)
            self.n += 1
            if t not in USED_W(self.s1) and t not in USED_W(self.s2):
                return t

    def add_slot(self, a, l1, l2):
        if a not in self.slotset:
            self.slotset[a] = (l1, l2)
            self.slots.append((a, l1, l2))

    def lin(self, l1, l2, lo=None, hi=None):
        l1, l2 = self.s1.canon(l1), self.s2.canon(l2)
        if l1 == l2:
            return l1
        c = l1[0]
        k = (addc(l1, -c), addc(l2, -c))
        r = self.lmemo.get(k)
        if r is None:
            # same item of a sequence at different positions?
            if len(k[0][1]) == 1 and len(l2[1]) == 1 and k[0][1][0][1] == 1 and l2[1][0][1] == 1 and l2[0] == c:
                t1, t2 = LA.term_of(l1[1][0][0]), LA.term_of(l2[1][0][0])
                t = self.term_struct(t1, t2)
                if t is not None:
                    lo_, hi_ = LA.RANGE[l1[1][0][0]]
                    a = atom(t, lo_, hi_, True)
                    self.add_slot(a, addc(l1, -c), addc(l2, -c))
                    r = var(a)
            if r is None:
                a = atom(self.fresh_term(), lo, hi, True)
                LA.IMPRECISE.add(a)
                # the rep may be negative: keep the range only for the unshifted value
                LA.RANGE[a] = (None, None)
                self.add_slot(a, k[0], k[1])
                r = var(a)
            self.lmemo[k] = r
        return addc(r, c)

    def term_struct(self, t1, t2):
        """structural anti-unification; None when only the trivial generalisation exists"""
        if t1 == t2:
            return t1
        if not (isinstance(t1, tuple) and isinstance(t2, tuple)) or not t1 or not t2 or t1[0] != t2[0] or len(t1) != len(t2):
            return None
        k = t1[0]
        if k == 'elem':
            b = self.term_struct(t1[1], t2[1])
            if b is None:
                return None
            return ('elem', b, self.lin(t1[2], t2[2]))
        if k in ('fld', '*', 'len', 'discr', 'itersrc'):
            if t1[2:] != t2[2:]:
                return None
            b = self.term_struct(t1[1], t2[1])
            return None if b is None else (k, b) + t1[2:]
        if k == 'positions' and len(t1) == 2 and is_lin(t1[1]) and is_lin(t2[1]):
            return (k, self.lin(t1[1], t2[1]))
        if k == 'cat':
            a = self.term_struct(t1[1], t2[1])
            b = self.term_struct(t1[2], t2[2])
            return None if a is None or b is None else (k, a, b)
        return None

    def term(self, t1, t2):
        if t1 == t2:
            return t1
        r = self.tmemo.get((t1, t2))
        if r is None:
            r = self.term_struct(t1, t2)
            if r is None:
                r = self.fresh_term()
                self.tw.append((r, t1, t2))
            self.tmemo[(t1, t2)] = r
        return r

    def formula(self, f1, f2):
        if f1 == f2:
            return f1
        if f1[0] == f2[0]:
            if f1[0] in ('ge', 'eq'):
                return (f1[0], self.lin(f1[1], f2[1]))
            if f1[0] == 'not':
                r = self.formula(f1[1], f2[1])
                return None if r is None else IP.fnot(r)
            if f1[0] == 'ceq':
                a = self.term_struct(f1[1], f2[1])
                b = self.term_struct(f1[2], f2[2])
                if a is not None and b is not None:
                    return ('ceq', a, b)
        return None

    def val(self, v1, v2, depth=0):
        if v1 == v2:
            return v1
        I = self.I
        k1, k2 = v1[0], v2[0]
        if k1 == 'int' and k2 == 'int':
            return ('int', self.lin(v1[1], v2[1]))
        if k1 == 'bool' and k2 == 'bool':
            d1, d2 = self.s1.decide(v1[1]), self.s2.decide(v2[1])
            if d1 is not None and d1 == d2:
                return ('bool', IP.TRUE if d1 else IP.FALSE)
            f = self.formula(v1[1], v2[1])
            if f is not None:
                return ('bool', f)
            return ('bool', ('b', self.fresh_term()))
        if k1 == 'refv' and k2 == 'refv':
            return ('refv', self.val(v1[1], v2[1], depth + 1))
        if k1 == 'box' and k2 == 'box':
            return ('box', self.val(v1[1], v2[1], depth + 1))
        if k1 == 'ref' and k2 == 'ref':
            p = self.path(v1[2], v2[2])
            if p is not None:
                if v1[1] == v2[1]:
                    return ('ref', v1[1], p)
                if v1[1][0] == 'D' and v2[1][0] == 'D' and v1[1] not in self.s1.mem and v2[1] not in self.s2.mem:
                    t = self.term(v1[1][1], v2[1][1])
                    return ('ref', ('D', t, v1[1][2]), p)
        if k1 in ('ref', 'refv') and k2 in ('ref', 'refv') and depth < 6:
            return ('refv', self.val(I.deref_val(self.s1, v1), I.deref_val(self.s2, v2), depth + 1))
        if k1 == 'sym' and k2 == 'agg' or k1 == 'agg' and k2 == 'sym':
            a, s = (v1, v2) if k1 == 'agg' else (v2, v1)
            st = self.s2 if k1 == 'agg' else self.s1
            ty = a[1] or s[2]
            if ty is not None and (ty.k in ('tuple', 'closure') or (ty.k == 'adt' and len(ty.r.get('variants') or ()) == 1)):
                fs = tuple(I.field(st, s, i) for i in range(len(a[3])))
                e = ('agg', ty, a[2], fs)
                return self.val(v1, e, depth + 1) if k1 == 'agg' else self.val(e, v2, depth + 1)
            return ('sym', self.fresh_term(), ty)
        if k1 == 'agg' and k2 == 'agg':
            if v1[2] == v2[2] and len(v1[3]) == len(v2[3]):
                return ('agg', v1[1] or v2[1], v1[2], tuple(self.val(a, b, depth + 1) for a, b in zip(v1[3], v2[3])))
            return ('sym', self.fresh_term(), v1[1] or v2[1])
        if k1 == 'sym' and k2 == 'sym':
            return ('sym', self.term(v1[1], v2[1]), v1[2] if v1[2] is v2[2] else None)
        if k1 == 'isym' and k2 == 'isym' and v1[2] is v2[2]:
            return ('isym', self.term(v1[1], v2[1]), v1[2])
        if k1 == 'str' and k2 == 'str':
            return ('str', self.term(v1[1], v2[1]))
        if {k1, k2} == {'str', 'sym'}:
            return ('str', self.term(v1[1], v2[1]))
        if k1 == 'view' and k2 == 'view':
            u = self.val(v1[1], v2[1], depth + 1)
            return ('view', u, self.lin(v1[2], v2[2]), self.lin(v1[3], v2[3]))
        if k1 == 'iter' and k2 == 'iter':
            g = self.gen(v1[1], v2[1])
            e = None if v1[3] is None or v2[3] is None else self.lin(v1[3], v2[3])
            return ('iter', g, self.lin(v1[2], v2[2]), e)
        if k1 == 'map' and k2 == 'map' and v1[2] is v2[2] and (v1[3] is None) == (v2[3] is None):
            mid = v1[1] if v1[1] == v2[1] else self.term(v1[1], v2[1])
            return ('map', mid, v1[2], None if v1[3] is None else tuple(self.lin(a, b) for a, b in zip(v1[3], v2[3])))
        seqk = ('seq', 'view', 'isym', 'sym')
        if k1 in seqk and k2 in seqk and 'seq' in (k1, k2):
            return self.seq(v1, v2)
        if k1 == 'fnv' or k2 == 'fnv':
            return ('sym', self.fresh_term(), None)
        ty = None
        for v in (v1, v2):
            if v[0] in ('sym',) and v[2] is not None:
                ty = v[2]
        return ('sym', self.fresh_term(), ty)

    def seq(self, v1, v2):
        I = self.I
        n1, n2 = I.seqlen(self.s1, v1), I.seqlen(self.s2, v2)
        ety = None
        vid = None
        for v in (v1, v2):
            if v[0] == 'seq':
                ety = ety or v[2]
                vid = vid or v[1]
            elif v[0] == 'isym':
                ety = ety or v[2]
            elif v[0] == 'sym' and v[2] is not None:
                ety = ety or IP.elem_ty(v[2])
        if n1 is None or n2 is None:
            return ('sym', self.fresh_term(), None)
        if v1[0] == 'seq' and v2[0] == 'seq' and v1[3] == v2[3] and v1[6] == v2[6] == () \
                and len(v1[5]) == len(v2[5]) and self.s1.canon(v1[4]) == self.s2.canon(v2[4]):
            return ('seq', vid, ety, v1[3], v1[4], tuple(self.val(a, b) for a, b in zip(v1[5], v2[5])), ())
        t1 = v1[5] if v1[0] == 'seq' and not v1[6] else ()
        t2 = v2[5] if v2[0] == 'seq' and not v2[6] else ()
        k = min(len(t1), len(t2), 1)
        tail = tuple(self.val(t1[len(t1) - k + i], t2[len(t2) - k + i]) for i in range(k))
        blen = addc(self.lin(n1, n2), -k)
        b1 = v1[3] if v1[0] == 'seq' else v1[1]
        b2 = v2[3] if v2[0] == 'seq' else v2[1]
        base = ('w', self.tag, 'base', vid)
        i = 0
        while base == b1 or base == b2:
            i += 1
            base = ('w', self.tag, 'base', vid, i)
        return ('seq', vid, ety, base, blen, tail, ())

    def gen(self, g1, g2):
        if g1 == g2:
            return g1
        if g1[0] != g2[0] or len(g1) != len(g2):
            return ('opq', self.fresh_term(), None)
        k = g1[0]
        out = [k]
        for a, b in zip(g1[1:], g2[1:]):
            if a == b:
                out.append(a)
            elif is_lin(a) and is_lin(b):
                out.append(self.lin(a, b))
            elif isinstance(a, tuple) and isinstance(b, tuple) and a and b and isinstance(a[0], str):
                if a[0] in GENS and b[0] in GENS:
                    out.append(self.gen(a, b))
                elif k == 'opq':
                    out.append(self.term(a, b))
                else:
                    out.append(self.val(a, b))
            else:
                return ('opq', self.fresh_term(), None)
        return tuple(out)

    def path(self, p1, p2):
        if p1 == p2:
            return p1
        if len(p1) != len(p2):
            return None
        out = []
        for a, b in zip(p1, p2):
            if a == b:
                out.append(a)
            elif a[0] == b[0] == 'e':
                out.append(('e', self.lin(a[1], b[1])))
            elif a[0] == b[0] == 'sl':
                out.append(('sl', self.lin(a[1], b[1]), self.lin(a[2], b[2])))
            else:
                return None
        return tuple(out)


GENS = ('slice', 'mutslice', 'range', 'zip', 'enum', 'rev', 'step', 'map', 'copied', 'refs', 'opq', 'once', 'filter', 'windows', 'list')

_usedw = {}


def USED_W(s):
    """w-terms named anywhere in the state (conservative: constraint atoms and memory)"""
    k = id(s)
    r = _usedw.get(k)
    if r is not None and r[0] is s:
        return r[1]
    out = set()
    seen = set()

    def walk(t):
        if not isinstance(t, tuple) or t in seen:
            return
        seen.add(t)
        if t and t[0] == 'w':
            out.add(t)
            return
        if is_lin(t):
            for i, _ in t[1]:
                walk(LA.term_of(i))
            return
        for x in t:
            walk(x)
    for v in s.mem.values():
        walk(v)
    for l in s.mem:
        walk(l)
    for i in s.cons.atoms():
        walk(LA.term_of(i))
    for f in s.facts:
        walk(f)
    for b in s.bools:
        walk(b)
    if len(_usedw) > 64:
        _usedw.clear()
    _usedw[k] = (s, out)
    return out


# ---------------------------------------------------------------- affine equalities
def nullspace(rows, nv):
    """basis of { x : R x = 0 } for rational rows (list of dict var->coef)"""
    piv = {}
    for r in rows:
        r = dict(r)
        for p, pr in piv.items():
            c = r.get(p)
            if c:
                for j, v in pr.items():
                    n = r.get(j, 0) - c * v
                    if n:
                        r[j] = n
                    else:
                        r.pop(j, None)
        if not r:
            continue
        p = max(r)           # eliminate later variables first
        c = r[p]
        r = {j: Fraction(v) / c for j, v in r.items()}
        for q in list(piv):
            c = piv[q].get(p)
            if c:
                pr = piv[q]
                for j, v in r.items():
                    n = pr.get(j, 0) - c * v
                    if n:
                        pr[j] = n
                    else:
                        pr.pop(j, None)
        piv[p] = r
    free = [j for j in range(nv) if j not in piv]
    out = []
    for f in free:
        x = {f: Fraction(1)}
        for p, r in piv.items():
            c = r.get(f)
            if c:
                x[p] = -c
        out.append(x)
    return out


def affine_join(cols):
    """cols: list of (Lin name, N1, N2); relations sum c_k*col_k + e = 0 in both"""
    n = len(cols)
    rows = {}
    for k, (_, a, b) in enumerate(cols):
        for side, l in ((1, a), (2, b)):
            for i, c in l[1]:
                rows.setdefault((side, i), {})[k] = c
            if l[0]:
                rows.setdefault((side, None), {})[k] = l[0]
    # constant column index n
    for side in (1, 2):
        rows.setdefault((side, None), {})[n] = 1
    out = []
    for x in nullspace(list(rows.values()), n + 1):
        den = 1
        for v in x.values():
            v = Fraction(v)
            den = den * v.denominator // gcd(den, v.denominator)
        e = (int(x.get(n, 0) * den), ())
        for k, v in x.items():
            if k == n:
                continue
            e = add(e, scale(cols[k][0], int(v * den)))
        if e[1]:
            out.append(e)
    return out


# ---------------------------------------------------------------- join
def join2(I, s1, s2, tag, widen=False):
    I.joins += 1
    au = AU(I, s1, s2, tag)
    r = IP.State()
    r.trace = s1.trace
    r.ghost = dict(s1.ghost)
    r.wid = max(s1.wid, s2.wid, 1)
    # ghost: discrete values must agree, otherwise unknown
    for k in list(r.ghost):
        if s2.ghost.get(k, None) != r.ghost[k]:
            r.ghost[k] = '?'
    for k in s2.ghost:
        if k not in r.ghost:
            r.ghost[k] = '?'
    for loc in sorted(set(s1.mem) & set(s2.mem), key=repr):
        r.mem[loc] = au.val(s1.mem[loc], s2.mem[loc])
    for loc in set(s1.mem) ^ set(s2.mem):
        if loc[0] == 'D':
            # only one side touched it: the other still holds the symbolic contents
            a = s1.mem.get(loc) or I.read(s1, loc, ())
            b = s2.mem.get(loc) or I.read(s2, loc, ())
            r.mem[loc] = au.val(a, b)
    finish(I, au, r, s1, s2, widen)
    return r


def finish_coarse(I, au, r, s1, s2):
    """keep only what both sides state in the same words"""
    for s in (s1.cons,):
        for i, l in s.eq.items():
            if s2.ent_eq(sub(var(i), l)):
                r.eq(sub(var(i), l))
        for g in s.ge:
            if g in s2.cons.ge:
                r.ge(g)
        for g in s.ne:
            if g in s2.cons.ne:
                r.ne(g)
    r.facts = s1.facts & s2.facts
    r.bools = {k: v for k, v in s1.bools.items() if s2.bools.get(k) == v}


def finish(I, au, r, s1, s2, widen):
    if I.coarse:
        return finish_coarse(I, au, r, s1, s2)
    # atoms present in the joined memory
    live = set()
    for v in r.mem.values():
        term_atoms(v, live)
    for l in r.mem:
        term_atoms(l, live)
    th1 = {a: l1 for a, l1, _ in au.slots}
    th2 = {a: l2 for a, _, l2 in au.slots}
    tt1 = {t: a for t, a, _ in au.tw}
    tt2 = {t: b for t, _, b in au.tw}
    # derived slots: items at matching positions that occur only in constraints
    idx1 = {}
    for i in s1.cons.atoms():
        t = LA.term_of(i)
        if contains_elem(t):
            idx1.setdefault(skel(t), []).append((i, t))
    for j in s2.cons.atoms():
        t2 = LA.term_of(j)
        if not contains_elem(t2):
            continue
        for i, t1 in idx1.get(skel(t2), ())[:6]:
            if t1 == t2:
                continue
            if all((k1, k2) in au.lmemo or k1 == k2 for k1, k2 in zip(*norm_idx(au, t1, t2))):
                n0 = len(au.slots)
                t = au.term_struct(t1, t2)
                if t is not None and len(au.slots) == n0:
                    lo, hi = LA.RANGE[i]
                    a = atom(t, lo, hi, True)
                    au.add_slot(a, var(i), var(j))
    th1 = {a: l1 for a, l1, _ in au.slots}
    th2 = {a: l2 for a, _, l2 in au.slots}
    slotids = set(th1)
    names = []
    for a, l1, l2 in au.slots:
        names.append((var(a), s1.canon(l1), s2.canon(l2)))
    rel = set()
    for _, a, b in names:
        rel |= {i for i, _ in a[1]} | {i for i, _ in b[1]}
    for s in (s1, s2):
        rel |= set(s.cons.eq)
    commons = []
    for i in sorted((s1.cons.atoms() | s2.cons.atoms() | rel | live) - slotids):
        t = LA.term_of(i)
        if isinstance(t, tuple) and t and t[0] in ('w', 'u') and i not in live:
            continue
        commons.append(i)
    if len(commons) > 140:
        commons = [i for i in commons if i in rel or i in live][:140]
    cols = list(names)
    for i in commons:
        cols.append((var(i), s1.canon(var(i)), s2.canon(var(i))))
    cons = LA.Cons()
    r.cons = cons
    for e in affine_join(cols):
        r.eq(e)
    # inequalities
    cand = []
    seen = set()
    inv1, inv2 = inverse(th1, s1), inverse(th2, s2)

    def push(c):
        c = LA.tighten(c)
        # sums of range bounds say nothing worth keeping
        if len(c[1]) > 2 and c[0] >= LA.MAX >> 4:
            return
        if c[1] and c not in seen:
            seen.add(c)
            cand.append(c)

    # a true widening after some rounds: only what the previous invariant already stated
    hard = widen is not True and widen >= 4
    for s, inv in ((s1, inv1), (s2, inv2))[:1 if hard else 2]:
        for g in s.cons.ge:
            for c in rewrite(g, inv):
                push(c)
    slots = [n[0] for n in names]
    if hard:
        for v in slots:
            push(v)
        slots = []
    for v in slots:
        push(v)
        push(addc(v, -1))
        push(addc(v, 1))
        push(neg(v))
    low = []
    for s in (s1, s2):
        t = {}
        for g in s.cons.ge:
            t[g[1]] = min(t.get(g[1], g[0]), g[0])
        low.append(t)

    def bounds(e):
        """lower bounds of e worth trying: -1, 0, 1 and those either state gives outright"""
        out = {-1, 0, 1}
        for s, t, th, tt in ((s1, low[0], th1, tt1), (s2, low[1], th2, tt2)):
            l = s.canon(subst_lin(e, th, tt))
            g = t.get(l[1])
            if g is not None:
                out.add(l[0] - g)
        return sorted(out)

    comv = [var(i) for i in commons if i in live or i in rel]
    if len(slots) * (len(slots) + len(comv)) < 4000:
        for n, x in enumerate(slots):
            for y in slots[n + 1:] + comv:
                d = sub(x, y)
                for e in (d, neg(d)):
                    for c in bounds(e):
                        push(addc(e, -c))
    if not widen:
        for a, l1, l2 in au.slots:
            if is_const(l1) and is_const(l2):
                push(addc(var(a), -min(l1[0], l2[0])))
                push(addc(neg(var(a)), max(l1[0], l2[0])))
    hints = I.templates(I, r) if I.templates is not None else ((), ())
    for c in hints[0]:
        push(c)
    ok = []
    for c in cand:
        if s1.ent_ge(subst_lin(c, th1, tt1)) and s2.ent_ge(subst_lin(c, th2, tt2)):
            ok.append(c)
    # strongest first: keep those not already implied
    ok.sort(key=lambda c: (len(c[1]), -0))
    for c in ok:
        r.ge(r.canon(c))
    for s, inv, o, th, tt in ((s1, inv1, s2, th2, tt2), (s2, inv2, s1, th1, tt1))[:1 if hard else 2]:
        for g in s.cons.ne:
            for c in rewrite(g, inv):
                if o.ent_ne(subst_lin(c, th, tt)):
                    r.ne(r.canon(c))
    # item facts
    facts = set()
    for f in s1.facts & s2.facts:
        facts.add(f)
    for s, inv, th, tt, o, tho, tto in ((s1, inv1, th1, tt1, s2, th2, tt2), (s2, inv2, th2, tt2, s1, th1, tt1)):
        for f in s.facts:
            if f in facts:
                continue
            for c in rewrite_fact(f, inv, th, s, slots, au, s is s1):
                if c in facts:
                    continue
                if fact_holds(s, subst_term(c, th, tt)) and fact_holds(o, subst_term(c, tho, tto)):
                    facts.add(c)
                    break
    for f in hints[1]:
        if f not in facts and fact_holds(s1, subst_term(f, th1, tt1)) and fact_holds(s2, subst_term(f, th2, tt2)):
            facts.add(f)
    r.facts = frozenset(facts)
    r.bools = {k: v for k, v in s1.bools.items() if s2.bools.get(k) == v}
    collect_dead(r, slotids)


def collect_dead(r, slotids):
    """project out names introduced by the join that nothing in the state mentions"""
    reach = set(live_atoms(r))
    names = set()
    for i in r.cons.atoms():
        lin_atoms(var(i), names)
    dead = {i for i in names if isinstance(LA.term_of(i), tuple) and LA.term_of(i)[:1] in (('w',), ('u',))} - reach
    if not dead:
        return
    # items that only unmentioned names lead to are as unmentioned as those
    for i in r.cons.atoms() - dead - reach:
        used = set()
        lin_atoms(var(i), used)
        if used & dead:
            dead.add(i)
    # a name used inside the term of an atom still constrained stays
    while True:
        used = set()
        for i in r.cons.atoms():
            if i not in dead:
                t = LA.term_of(i)
                if isinstance(t, tuple):
                    for x in t:
                        term_atoms(x, used)
        back = dead & used
        if not back:
            break
        dead -= back
    if not dead or not (dead & r.cons.atoms()):
        return
    old = r.cons
    eqs = [sub(var(i), l) for i, l in old.eq.items()]
    ges, nes = list(old.ge), list(old.ne)
    for a in sorted(dead & old.atoms()):
        piv = next((e for e in eqs if abs(dict(e[1]).get(a, 0)) == 1), None)
        if piv is not None:
            c = dict(piv[1])[a]
            rest = (piv[0], tuple((j, k) for j, k in piv[1] if j != a))
            val = scale(rest, -c)              # a = val
            eqs.remove(piv)

            def sb(l):
                k = dict(l[1]).get(a)
                return l if not k else add((l[0], tuple((j, q) for j, q in l[1] if j != a)), scale(val, k))
            eqs = [x for x in map(sb, eqs) if x[1]]
            ges = [sb(l) for l in ges]
            nes = [sb(l) for l in nes]
            continue
        eqs = [e for e in eqs if a not in dict(e[1])]
        nes = [l for l in nes if a not in dict(l[1])]
        lo = [l for l in ges if dict(l[1]).get(a, 0) > 0]
        hi = [l for l in ges if dict(l[1]).get(a, 0) < 0]
        ges = [l for l in ges if a not in dict(l[1])]
        rlo, rhi = LA.RANGE[a]
        if rlo is not None:
            lo.append(addc(var(a), -rlo))
        if rhi is not None:
            hi.append(addc(neg(var(a)), rhi))
        if len(lo) * len(hi) <= 12:
            for x in lo:
                for y in hi:
                    cx, cy = dict(x[1])[a], -dict(y[1])[a]
                    z = add(scale(x, cy), scale(y, cx))
                    if z[1]:
                        ges.append(LA.tighten(z))
    r.cons = LA.Cons()
    for e in eqs:
        r.eq(e)
    for g in ges:
        if not r.cons.entails_ge(r.canon(g)):
            r.ge(r.canon(g))
    for n in nes:
        r.ne(r.canon(n))


def live_atoms(r):
    out = set()
    for v in r.mem.values():
        term_atoms(v, out)
    for l in r.mem:
        term_atoms(l, out)
    for f in r.facts:
        term_atoms(f, out)
    for b in r.bools:
        term_atoms(b, out)
    return out


def contains_elem(t):
    return isinstance(t, tuple) and bool(t) and (t[0] == 'elem' or (t[0] in ('fld', '*', 'len', 'discr') and contains_elem(t[1])))


def skel(t):
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == 'elem':
        return ('elem', skel(t[1]))
    if t[0] in ('fld', '*', 'len', 'discr'):
        return (t[0], skel(t[1])) + t[2:]
    return t


def norm_idx(au, t1, t2):
    a, b = [], []
    while isinstance(t1, tuple) and t1 and t1[0] in ('elem', 'fld', '*', 'len', 'discr'):
        if t1[0] == 'elem':
            l1, l2 = au.s1.canon(t1[2]), au.s2.canon(t2[2])
            c = l1[0]
            a.append(addc(l1, -c))
            b.append(addc(l2, -c))
        t1, t2 = t1[1], t2[1]
    return a, b


def inverse(th, s):
    """atom of s -> list of Lins over the fresh atoms equal to it; plus constants"""
    inv = {}
    for a, l in th.items():
        l = s.canon(l)
        for i, c in l[1]:
            if c in (1, -1):
                rest = (l[0], tuple((j, k) for j, k in l[1] if j != i))
                # i = c*(a - rest)
                inv.setdefault(i, []).append(scale(sub(var(a), rest), c))
        if not l[1]:
            inv.setdefault(('c', l[0]), []).append(var(a))
    return inv


def rewrite(g, inv, limit=6):
    """variants of g over the joined vocabulary"""
    outs = [g]
    for i, c in g[1]:
        alts = inv.get(i, ())
        if not alts:
            continue
        nxt = []
        for o in outs:
            co = dict(o[1]).get(i)
            if co is None:
                nxt.append(o)
                continue
            base = (o[0], tuple((j, k) for j, k in o[1] if j != i))
            for a in alts[:3]:
                nxt.append(add(base, scale(a, co)))
            t = LA.term_of(i)
            if not (isinstance(t, tuple) and t and t[0] in ('w', 'u')):
                nxt.append(o)
        outs = nxt[:limit]
    return outs


def rewrite_lin(l, inv, th, s, limit=5):
    """candidate Lins over the joined vocabulary whose value in s is l"""
    l = s.canon(l)
    outs = []
    for a, t in th.items():
        d = sub(l, s.canon(t))
        if not d[1]:
            outs.append(addc(var(a), d[0]))
    outs += rewrite(l, inv, 4)
    res = []
    for o in outs:
        if o not in res:
            res.append(o)
    return res[:limit]


def rewrite_fact(f, inv, th, s, slots, au, first):
    k = f[0]
    if k in ('run', 'nrun'):
        out = []
        A, B = f[1], f[3]
        for a in rewrite_lin(f[2], inv, th, s):
            for b in rewrite_lin(f[4], inv, th, s):
                for n in rewrite_lin(f[5], inv, th, s):
                    out.append((k, A, a, B, b, n))
        return out[:60]
    if k in ('ceq', 'nceq'):
        outs = [f]
        if f[1][0] == 'elem' and f[2][0] == 'elem':
            outs = []
            for a in rewrite_lin(f[1][2], inv, th, s):
                for b in rewrite_lin(f[2][2], inv, th, s):
                    outs.append((k, ('elem', f[1][1], a), ('elem', f[2][1], b)))
            if k == 'ceq':
                for a in rewrite_lin(f[1][2], inv, th, s):
                    for b in rewrite_lin(f[2][2], inv, th, s):
                        for n in slots[:12]:
                            outs.append(('run', f[1][1], a, f[2][1], b, n))
                            # run that ends at this item
                            outs.append(('run', f[1][1], sub(addc(a, 1), n), f[2][1], sub(addc(b, 1), n), n))
        return outs[:120]
    return [f]


def fact_holds(s, f):
    k = f[0]
    if k == 'run':
        return s.ent_run(*f[1:])
    if k == 'ceq':
        return s.ent_ceq(f[1], f[2])
    if k in ('nceq', 'nrun'):
        if f in s.facts:
            return True
        for g in s.facts:
            if g[0] == k and all(x == y or (is_lin(x) and is_lin(y) and s.ent_eq(sub(x, y))) or
                                 (isinstance(x, tuple) and isinstance(y, tuple) and not is_lin(x) and s.term_eq(x, y)) for x, y in zip(g[1:], f[1:])):
                return True
        return False
    return f in s.facts


def join_states(I, states, tag, widen=False):
    s = states[0]
    for t in states[1:]:
        if leq(I, t, s):
            continue
        s = join2(I, s, t, tag, widen)
    if s is states[0]:
        s = s.copy()
        s.wid = max(s.wid, 1)
    return s


def coarse(s):
    return (frozenset(s.ghost.items()), s.trace, s.wid > 0)


def full_shape(s, depth=2):
    return (frozenset((l, IP.shape(v, depth)) for l, v in s.mem.items()), frozenset(s.ghost.items()), s.trace, s.wid > 0)


def shape_key(s, d):
    return (frozenset((l, IP.shape(v, 2)) for l, v in s.mem.items() if l[0] != 'L' or l[1] == d), frozenset(s.ghost.items()), s.trace)


def reduce_states(I, states, tag, cap):
    for keyf in (lambda s: full_shape(s, 3), lambda s: full_shape(s, 1), coarse):
        groups = {}
        for s in states:
            groups.setdefault(keyf(s), []).append(s)
        if len(groups) <= max(4, cap * 3 // 4) or keyf is coarse:
            out = []
            # merge the largest groups first, keep small ones apart when there is room
            room = cap
            for g in sorted(groups.values(), key=len):
                if len(g) <= 2 and room - len(g) >= len(groups):
                    out += g
                    room -= len(g)
                else:
                    out.append(join_states(I, g, tag))
                    room -= 1
            return out
    return states


# ---------------------------------------------------------------- inclusion
class Match:
    def __init__(self, I, s, g):
        self.I, self.s, self.g = I, s, g
        self.th = {}
        self.tt = {}
        self.defer = []

    def lin(self, gl, sl):
        if gl == sl and not lin_has_w(gl):
            return True
        orig, gl = gl, self.g.canon(gl)
        un = [(i, c) for i, c in gl[1] if i not in self.th and is_w_atom(i)]
        if len(un) == 1 and un[0][1] in (1, -1):
            i, c = un[0]
            rest = (gl[0], tuple((j, k) for j, k in gl[1] if j != i))
            rest = subst_lin(rest, self.th, self.tt)
            if not lin_has_unbound(rest, self.th):
                self.th[i] = self.s.canon(scale(sub(sl, rest), c))
                return True
        self.defer.append((orig, sl))
        return True

    def term(self, a, b):
        if a == b and not has_w(a):
            return True
        if not isinstance(a, tuple) or not isinstance(b, tuple):
            return a == b
        if a and a[0] == 'w':
            o = self.tt.get(a)
            if o is not None:
                return o == b or self.s.term_eq(o, b)
            self.tt[a] = b
            return True
        if is_lin(a) and is_lin(b):
            return self.lin(a, b)
        if not a or not b or a[0] != b[0] or len(a) != len(b):
            return False
        for x, y in zip(a, b):
            if isinstance(x, tuple):
                if not self.term(x, y):
                    return False
            elif x != y:
                return False
        return True

    def val(self, a, b, depth=0):
        if a == b and not has_w(a):
            return True
        ka, kb = a[0], b[0]
        if ka == 'sym' and a[1] and isinstance(a[1], tuple) and a[1][0] == 'w':
            # unknown object: anything is included (as long as it is used consistently)
            t = ('vv', kb, b) if kb != 'sym' else b[1]
            o = self.tt.get(a[1])
            if o is not None:
                return o == t
            self.tt[a[1]] = t
            return True
        if ka == 'int' and kb == 'int':
            return self.lin(a[1], b[1])
        if ka == 'bool' and kb == 'bool':
            if a[1][0] == 'b' and isinstance(a[1][1], tuple) and a[1][1] and a[1][1][0] == 'w':
                return True
            if a[1] in (IP.TRUE, IP.FALSE):
                return self.s.decide(b[1]) == (a[1] == IP.TRUE)
            return self.term(a[1], b[1])
        if ka in ('refv', 'box') and ka == kb:
            return self.val(a[1], b[1], depth + 1)
        if ka == 'ref' and kb == 'ref':
            if len(a[2]) != len(b[2]):
                return False
            if a[1] != b[1]:
                if a[1][0] == 'D' and b[1][0] == 'D':
                    if not self.term(a[1][1], b[1][1]):
                        return False
                else:
                    return False
            elif has_w(a[1]):
                if not self.term(a[1], b[1]):
                    return False
            for x, y in zip(a[2], b[2]):
                if x == y and not has_w(x):
                    continue
                if x[0] != y[0] or x[0] not in ('e', 'sl'):
                    return False
                for p, q in zip(x[1:], y[1:]):
                    self.lin(p, q)
            return True
        if ka == 'refv' and kb == 'ref' and depth < 6:
            return self.val(a[1], self.I.deref_val(self.s, b), depth + 1)
        if ka == 'agg' and kb == 'agg':
            if a[2] != b[2] or len(a[3]) != len(b[3]):
                return False
            return all(self.val(x, y, depth + 1) for x, y in zip(a[3], b[3]))
        if ka == 'agg' and kb == 'sym':
            ty = a[1] or b[2]
            if ty is not None and (ty.k in ('tuple', 'closure') or (ty.k == 'adt' and len(ty.r.get('variants') or ()) == 1)):
                return all(self.val(x, self.I.field(self.s, b, i), depth + 1) for i, x in enumerate(a[3]))
            return False
        if ka == 'sym' and kb == 'sym':
            return self.term(a[1], b[1])
        if ka == 'isym' and kb == 'isym':
            return a[2] is b[2] and self.term(a[1], b[1])
        if ka == 'str' and kb in ('str', 'sym'):
            return self.term(a[1], b[1])
        if ka == 'view' and kb == 'view':
            return self.val(a[1], b[1]) and self.lin(a[2], b[2]) and self.lin(a[3], b[3])
        if ka == 'iter' and kb == 'iter':
            if (a[3] is None) != (b[3] is None):
                return a[3] is None and self.gen(a[1], b[1]) and self.lin(a[2], b[2])
            return self.gen(a[1], b[1]) and self.lin(a[2], b[2]) and (a[3] is None or self.lin(a[3], b[3]))
        if ka == 'map' and kb == 'map':
            if a[2] is not b[2] or (a[3] is None) != (b[3] is None) or not self.term(a[1], b[1]):
                return False
            return a[3] is None or all(self.lin(x, y) for x, y in zip(a[3], b[3]))
        if ka == 'seq':
            n = self.I.seqlen(self.s, b)
            if n is None:
                return False
            if kb == 'seq':
                if a[3] == b[3] and not has_w(a[3]) and len(a[5]) == len(b[5]) and a[6] == b[6]:
                    return self.lin(a[4], b[4]) and all(self.val(x, y) for x, y in zip(a[5], b[5]))
                if a[6]:
                    return False
                if a[3] is not None and isinstance(a[3], tuple) and a[3][0] == 'w':
                    k = len(a[5])
                    if len(b[5]) < k or (b[6] and k):
                        return False
                    if not self.lin(a[4], addc(n, -k)):
                        return False
                    return all(self.val(x, y) for x, y in zip(a[5], b[5][len(b[5]) - k:] if k else ()))
                return False
            if a[3] is not None and isinstance(a[3], tuple) and a[3][0] == 'w' and not a[5]:
                return self.lin(a[4], n)
            return False
        return False

    def gen(self, a, b):
        if a == b and not has_w(a):
            return True
        if a[0] == 'opq' and isinstance(a[1], tuple) and a[1] and a[1][0] == 'w' and a[2] is None:
            return True
        if a[0] != b[0] or len(a) != len(b):
            return False
        for x, y in zip(a[1:], b[1:]):
            if is_lin(x) and is_lin(y):
                self.lin(x, y)
            elif isinstance(x, tuple) and isinstance(y, tuple) and x and y and isinstance(x[0], str):
                if x[0] in GENS:
                    if not self.gen(x, y):
                        return False
                elif a[0] == 'opq':
                    if not self.term(x, y):
                        return False
                elif not self.val(x, y):
                    return False
            elif x != y:
                return False
        return True


def is_w_atom(i):
    t = LA.term_of(i)
    return isinstance(t, tuple) and bool(t) and t[0] == 'w'


def lin_has_unbound(l, th):
    return any(is_w_atom(i) and i not in th for i, _ in l[1]) if False else False


def leq(I, s, g):
    if s is g:
        return True
    if s.trace != g.trace:
        return False
    if s.ghost != g.ghost:
        for k, v in g.ghost.items():
            if v != '?' and s.ghost.get(k) != v:
                return False
        for k in s.ghost:
            if k not in g.ghost:
                return False
    if g.wid == 0 and s.wid > 0:
        return False
    m = Match(I, s, g)
    order = sorted(g.mem, key=repr)
    for loc in order:
        if loc not in s.mem:
            if loc[0] == 'D':
                sv = I.read(s, loc, ())
            else:
                return False
        else:
            sv = s.mem[loc]
        if not m.val(g.mem[loc], sv):
            return False
    for loc in s.mem:
        if loc not in g.mem and loc[0] == 'D':
            return False
    # resolve deferred equalities (twice: bindings may have been found later)
    for _ in range(3):
        todo, m.defer = m.defer, []
        for gl, sl in todo:
            m.lin(gl, sl)
        if len(m.defer) == len(todo):
            break
    # names left over that occur only inside a term: the one at the same place on the other side
    for gl, sl in m.defer:
        alts = sl[1] + tuple(x for x in s.canon(sl)[1] if x not in sl[1])
        for i, c in gl[1]:
            out = set()
            lin_atoms(var(i), out)
            if i in m.th or is_w_atom(i) or not any(is_w_atom(a) and a not in m.th for a in out):
                continue
            for j, k in alts:
                if k == c and skel(LA.term_of(i)) == skel(LA.term_of(j)) and m.term(LA.term_of(i), LA.term_of(j)):
                    break
    th, tt = m.th, m.tt

    def bound(l):
        out = set()
        lin_atoms(l, out)
        return all(i in th or not is_w_atom(i) for i in out)
    for gl, sl in m.defer:
        x = subst_lin(g.canon(gl), th, tt)
        if not s.ent_eq(sub(x, sl)):
            return False
    for i, e in g.cons.eq.items():
        l = sub(var(i), e)
        if not bound(l):
            # defines an unbound existential: bind it
            if is_w_atom(i) and i not in th and bound(e):
                th[i] = subst_lin(e, th, tt)
                continue
            return False
        if not s.ent_eq(subst_lin(l, th, tt)):
            return False
    for l in g.cons.ge:
        if not bound(l) or not s.ent_ge(subst_lin(l, th, tt)):
            return False
    for l in g.cons.ne:
        if not bound(l) or not s.ent_ne(subst_lin(l, th, tt)):
            return False
    for f in g.facts:
        if not fact_holds(s, subst_term(f, th, tt)):
            return False
    for k, v in g.bools.items():
        if s.bools.get(subst_term(k, th, tt)) != v:
            return False
    return True


def havoc_loop(I, s, fn, d, comp, tag):
    """forget everything a loop may change"""
    head, inner, blocks = comp
    s = s.copy()
    s.wid = max(s.wid, 1)
    touched = set()
    anycall = False
    for b in blocks:
        blk = fn.blocks[b]
        if blk is None:
            continue
        for x in blk[0]:
            if x[0] == '=':
                touched.add(x[1][0])
                if x[2][0] in ('ref', 'reborrow'):
                    touched.add(x[2][2][0])
        if blk[1][0] == 'call':
            touched.add(blk[1][3][0])
            anycall = True
    n = 0
    for loc in list(s.mem):
        if loc[0] == 'L' and loc[1] == d:
            if loc[2] in touched:
                n += 1
                s.mem[loc] = IP.mk_sym(('w', tag, 'havoc', n), fn.locals[loc[2]])
        elif loc[0] != 'G' and anycall:
            v = s.mem[loc]
            if v[0] in ('int', 'seq', 'iter', 'bool', 'agg', 'view'):
                ty = I.loc_ty(loc) if loc[0] == 'L' else (loc[2] if loc[0] == 'D' else None)
                n += 1
                s.mem[loc] = IP.mk_sym(('w', tag, 'havoc', n), ty) if ty is not None else ('sym', ('w', tag, 'havoc', n), None)
    for loc in list(s.mem):
        if loc[0] == 'G' and s.mem[loc][0] == 'int':
            n += 1
            s.mem[loc] = ('int', var(atom(('w', tag, 'havoc', n), None, None, True)))
    for k in s.ghost:
        if not k.startswith('_'):
            s.ghost[k] = '?'
    keep = set()
    s.facts = frozenset(f for f in s.facts if not has_w(f))
    return s
