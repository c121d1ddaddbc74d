"""Linear-expression / affine-inequality abstract domain.

Lin  = (const, ((atom_id, coef), ...))  sorted by atom id; integer coefficients.
Cons = conjunction of affine equalities (kept in solved form), affine
       inequalities  lin >= 0  and disequalities  lin != 0  over integers.
Entailment is decided inside the domain by equality substitution, interval
bounds and variable elimination with integer tightening (exact rationals, no
floating point, no external program).  Answers are sound for "entailed"; "not
entailed" may be imprecise.
"""
from math import gcd

_ids = {}
_terms = []
RANGE = {}      # atom id -> (lo|None, hi|None)
IMPRECISE = set()

MAX = 2 ** 62


def atom(term, lo=None, hi=None, imprecise=False):
    i = _ids.get(term)
    if i is None:
        i = len(_terms)
        _ids[term] = i
        _terms.append(term)
        RANGE[i] = (lo, hi)
        if imprecise:
            IMPRECISE.add(i)
    return i


def term_of(i):
    return _terms[i]


def L(c, d=None):
    return (c, tuple(sorted((k, v) for k, v in d.items() if v))) if d else (c, ())


ZERO = (0, ())
ONE = (1, ())


def const(c):
    return (c, ())


def var(i):
    return (0, ((i, 1),))


def add(a, b):
    if not b[1]:
        return (a[0] + b[0], a[1])
    if not a[1]:
        return (a[0] + b[0], b[1])
    d = dict(a[1])
    for k, v in b[1]:
        n = d.get(k, 0) + v
        if n:
            d[k] = n
        else:
            d.pop(k, None)
    return (a[0] + b[0], tuple(sorted(d.items())))


def scale(a, k):
    if k == 1:
        return a
    if k == 0:
        return ZERO
    return (a[0] * k, tuple((i, c * k) for i, c in a[1]))


def neg(a):
    return scale(a, -1)


def sub(a, b):
    return add(a, scale(b, -1))


def addc(a, c):
    return (a[0] + c, a[1])


def is_const(a):
    return not a[1]


def subst(a, m):
    """substitute atoms by Lins"""
    hit = False
    for i, _ in a[1]:
        if i in m:
            hit = True
            break
    if not hit:
        return a
    r = (a[0], tuple((i, c) for i, c in a[1] if i not in m))
    for i, c in a[1]:
        if i in m:
            r = add(r, scale(m[i], c))
    return r


def tighten(a):
    """lin >= 0 over integers: divide by gcd, floor the constant"""
    if not a[1]:
        return a
    g = 0
    for _, c in a[1]:
        g = gcd(g, c)
        if g == 1:
            return a
    return (a[0] // g, tuple((i, c // g) for i, c in a[1]))


STATS = {'entail': 0, 'fm': 0}


def _fm_unsat(cs, limit=260):
    """cs: iterable of Lin (>=0). True if the system is certainly infeasible."""
    STATS['fm'] += 1
    rows = {}

    def put(d, l):
        l = tighten(l)
        if not l[1]:
            return l[0] < 0
        o = d.get(l[1])
        if o is None or l[0] < o:
            d[l[1]] = l[0]
            n = d.get(tuple((i, -c) for i, c in l[1]))
            if n is not None and n + l[0] < 0:
                return True
        return False

    for l in cs:
        if put(rows, l):
            return True
    while rows:
        pos = {}
        ng = {}
        for f in rows:
            for i, c in f:
                if c > 0:
                    pos[i] = pos.get(i, 0) + 1
                else:
                    ng[i] = ng.get(i, 0) + 1
        best = None
        for i in set(pos) | set(ng):
            p = pos.get(i, 0)
            q = ng.get(i, 0)
            cost = p * q - p - q
            if best is None or cost < best[0]:
                best = (cost, i)
        x = best[1]
        P, N, R = [], [], {}
        for f, c in rows.items():
            co = 0
            for i, k in f:
                if i == x:
                    co = k
                    break
            if co > 0:
                P.append((co, (c, f)))
            elif co < 0:
                N.append((-co, (c, f)))
            else:
                R[f] = c
        if len(R) + len(P) * len(N) > limit:
            return False
        for a, lp in P:
            for b, ln in N:
                g = gcd(a, b)
                r = add(scale(lp, b // g), scale(ln, a // g))
                if put(R, r):
                    return True
        rows = R
    return False


class Cons:
    __slots__ = ('eq', 'ge', 'ne', 'bad', '_c', '_idx')

    def __init__(self, eq=None, ge=(), ne=(), bad=False):
        self.eq = eq or {}
        self.ge = ge
        self.ne = ne
        self.bad = bad
        self._c = {}
        self._idx = None

    def key(self):
        return (tuple(sorted(self.eq.items())), frozenset(self.ge), frozenset(self.ne), self.bad)

    def norm(self, a):
        if not self.eq:
            return a
        return subst(a, self.eq)

    def _bad(self):
        return Cons(self.eq, self.ge, self.ne, True)

    def add_ge(self, lin):
        """assume lin >= 0"""
        if self.bad:
            return self
        l = tighten(self.norm(lin))
        if not l[1]:
            return self if l[0] >= 0 else self._bad()
        if l in self._geset():
            return self
        if self.entails_ge(l):
            return self
        if self.entails_ge(addc(neg(l), -1)):
            return self._bad()
        nl = neg(l)
        if self.entails_ge(nl):
            return self.add_eq(l)
        ge = tuple(g for g in self.ge if not (g[1] == l[1] and g[0] >= l[0])) + (l,)
        r = Cons(self.eq, ge, self.ne)
        return r._recheck_ne()

    def _geset(self):
        s = self._c.get('geset')
        if s is None:
            s = set(self.ge)
            self._c['geset'] = s
        return s

    def _recheck_ne(self):
        if not self.ne:
            return self
        for n in self.ne:
            m = self.norm(n)
            if not m[1]:
                if m[0] == 0:
                    return self._bad()
                return Cons(self.eq, self.ge, tuple(x for x in self.ne if x != n))._recheck_ne()
            if self.entails_ge(m):
                return Cons(self.eq, self.ge, tuple(x for x in self.ne if x != n)).add_ge(addc(m, -1))
            if self.entails_ge(neg(m)):
                return Cons(self.eq, self.ge, tuple(x for x in self.ne if x != n)).add_ge(addc(neg(m), -1))
        return self

    def add_eq(self, lin):
        if self.bad:
            return self
        l = self.norm(lin)
        if not l[1]:
            return self if l[0] == 0 else self._bad()
        g = 0
        for _, c in l[1]:
            g = gcd(g, c)
        if g > 1:
            if l[0] % g:
                return self._bad()
            l = (l[0] // g, tuple((i, c // g) for i, c in l[1]))
        # range / contradiction check
        if self.entails_ge(addc(l, -1)) or self.entails_ge(addc(neg(l), -1)):
            return self._bad()
        # choose an atom with coefficient +-1, newest first
        x = None
        for i, c in l[1]:
            if c in (1, -1) and (x is None or i > x[0]):
                x = (i, c)
        if x is None:
            # keep as two inequalities
            ge = self.ge + (l, neg(l))
            return Cons(self.eq, ge, self.ne)._recheck_ne()
        i, c = x
        rest = (l[0], tuple((j, k) for j, k in l[1] if j != i))
        rhs = scale(rest, -c)
        m = {i: rhs}
        eq = {j: subst(r, m) for j, r in self.eq.items()}
        eq[i] = rhs
        ge = []
        lo, hi = RANGE.get(i, (None, None))
        todo = [subst(g_, m) for g_ in self.ge]
        if lo is not None:
            todo.append(addc(rhs, -lo))
        if hi is not None and hi < MAX:
            todo.append(addc(neg(rhs), hi))
        seen = set()
        for g_ in todo:
            g_ = tighten(g_)
            if not g_[1]:
                if g_[0] < 0:
                    return self._bad()
                continue
            if g_ in seen:
                continue
            seen.add(g_)
            ge.append(g_)
        r = Cons(eq, tuple(ge), self.ne)
        return r._recheck_ne()

    def add_ne(self, lin):
        if self.bad:
            return self
        l = self.norm(lin)
        if not l[1]:
            return self._bad() if l[0] == 0 else self
        if l in self.ne or neg(l) in self.ne:
            return self
        return Cons(self.eq, self.ge, self.ne + (l,))._recheck_ne()

    def _relevant(self, l):
        if self._idx is None:
            idx = {}
            for g in self.ge:
                for i, _ in g[1]:
                    idx.setdefault(i, []).append(g)
            self._idx = idx
        seen = set()
        out = []
        outs = set()
        st = [i for i, _ in l[1]]
        while st:
            i = st.pop()
            if i in seen:
                continue
            seen.add(i)
            lo, hi = RANGE.get(i, (None, None))
            if lo is not None:
                out.append((-lo, ((i, 1),)))
            if hi is not None and hi < MAX:
                out.append((hi, ((i, -1),)))
            for g in self._idx.get(i, ()):
                if g not in outs:
                    outs.add(g)
                    out.append(g)
                    for j, _ in g[1]:
                        if j not in seen:
                            st.append(j)
        return out

    def entails_ge(self, lin):
        if self.bad:
            return True
        l = tighten(self.norm(lin))
        if not l[1]:
            return l[0] >= 0
        r = self._c.get(l)
        if r is not None:
            return r
        STATS['entail'] += 1
        r = self._ent(l)
        self._c[l] = r
        return r

    def _ent(self, l):
        # interval
        m = l[0]
        for i, c in l[1]:
            lo, hi = RANGE.get(i, (None, None))
            b = lo if c > 0 else hi
            if b is None or b >= MAX:
                m = None
                break
            m += c * b
        if m is not None and m >= 0:
            return True
        for g in self.ge:
            if g[1] == l[1] and g[0] <= l[0]:
                return True
        rel = self._relevant(l)
        if not rel:
            return False
        return _fm_unsat(rel + [addc(neg(l), -1)])

    def entails_eq(self, lin):
        if self.bad:
            return True
        l = self.norm(lin)
        if not l[1]:
            return l[0] == 0
        return self.entails_ge(l) and self.entails_ge(neg(l))

    def entails_ne(self, lin):
        if self.bad:
            return True
        l = self.norm(lin)
        if not l[1]:
            return l[0] != 0
        if l in self.ne or neg(l) in self.ne:
            return True
        return self.entails_ge(addc(l, -1)) or self.entails_ge(addc(neg(l), -1))

    def atoms(self):
        s = set(self.eq)
        for r in self.eq.values():
            s.update(i for i, _ in r[1])
        for g in self.ge + self.ne:
            s.update(i for i, _ in g[1])
        return s


def show(l, name=None):
    name = name or show_term
    ps = []
    for i, c in l[1]:
        t = name(term_of(i))
        ps.append(t if c == 1 else ('-' + t if c == -1 else f'{c}*{t}'))
    if l[0] or not ps:
        ps.append(str(l[0]))
    return ' + '.join(ps).replace('+ -', '- ')


def show_term(t):
    if isinstance(t, tuple):
        if t and t[0] == 'elem' and len(t) >= 3:
            return f'{show_term(t[1])}[{show(t[2])}]'
        if t and t[0] == 'len':
            return f'len({show_term(t[1])})'
        if t and t[0] == 'fld':
            return f'{show_term(t[1])}.{t[2] if t[2] else ""}{"#" if t[2] else ""}{t[3]}'
        if t and t[0] == '*':
            return f'*{show_term(t[1])}'
        if t and t[0] == 'p':
            return str(t[1])
        if len(t) == 2 and isinstance(t[0], int) and isinstance(t[1], tuple):
            return show(t)
        return '(' + ' '.join(show_term(x) for x in t) + ')'
    return str(t)
