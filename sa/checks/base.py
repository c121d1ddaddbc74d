"""Shared helpers of the checks that analyse library functions."""
from .. import mir, interp as IP, lin as LA, join as J
from ..lin import atom, var, const, add, sub, addc, neg, ZERO, ONE

TRUE, FALSE = IP.TRUE, IP.FALSE


def fns(p, name=None, crate=None, trait=None, self_ty=None, poly=False):
    """candidate bodies"""
    out = []
    for f in p.fns.values():
        if not f.crate.startswith('pw_') or (f.poly and not poly) or '{closure' in f.key:
            continue
        if name is not None and f.name != name:
            continue
        if crate is not None and f.crate != crate:
            continue
        if self_ty is not None and selfname(f) != self_ty:
            continue
        out.append(f)
    return out


def selfname(f):
    if f.argc < 1:
        return None
    t = f.locals[1]
    if t.k == 'ref':
        t = t.r['inner']
    return t.r['path'] if t.k == 'adt' else None


def arg(I, st, ty, name, mut=None):
    """an arbitrary argument of the given type"""
    if ty.k == 'ref':
        if ty.name.startswith('&mut '):
            loc = ('G', name)
            st.mem[loc] = IP.mk_sym(('p', name), ty.r['inner'])
            return ('ref', loc, ())
        return ('refv', IP.mk_sym(('p', name), ty.r['inner']))
    return IP.mk_sym(('p', name), ty)


def exact(f):
    """does a formula mention only precise quantities?"""
    if f[0] in ('ge', 'eq'):
        return not any(i in LA.IMPRECISE or J.has_w(LA.term_of(i)) or IP.imprecise_term(LA.term_of(i)) for i, _ in f[1][1])
    if f[0] in ('not',):
        return exact(f[1])
    if f[0] == 'and':
        return exact(f[1]) and exact(f[2])
    return not has_u(f)


def has_u(t):
    if isinstance(t, tuple):
        if t and t[0] in ('u', 'w'):
            return True
        if J.is_lin(t):
            return any(i in LA.IMPRECISE or has_u(LA.term_of(i)) for i, _ in t[1])
        return any(has_u(x) for x in t if isinstance(x, tuple))
    return False


def oblige(R, I, st, name, f, key, msg, strict=False):
    """f must hold in st: proved, violated (refuted, or open in a state that carries no approximation), or undecided"""
    d = st.decide(f)
    if d is True:
        R.ok(name)
    elif d is False and (st.wid == 0 or strict):
        R.violate(name, key, msg)
    elif d is None and st.wid == 0 and exact(f):
        bad = [s for s in st.assume(f, False) if not s.cons.bad]
        if bad:
            R.violate(name, key, msg)
        else:
            R.ok(name)
    else:
        R.undecided(name, f'{key}: {msg}')
    return d


# ------------------------------------------------------------------ printable forms without analysis-internal numbers
def canon(x):
    if isinstance(x, mir.Ty):
        return x.name
    if isinstance(x, IP.FnRef):
        return 'fn ' + (x.key or x.path)
    if isinstance(x, tuple):
        if x and x[0] in ('u', 'w') and len(x) > 1:
            return f"?{x[1] if isinstance(x[1], str) else 'w'}"
        if J.is_lin(x):
            return canon_lin(x)
        return '(' + ' '.join(canon(y) for y in x) + ')'
    if isinstance(x, list):
        return '[' + ' '.join(canon(y) for y in x) + ']'
    return str(x)


def canon_lin(l):
    return '{' + ' '.join(sorted(f'{c}*{canon(LA.term_of(i))}' for i, c in l[1])) + f' + {l[0]}' + '}'


def canon_state(st):
    c = st.cons
    cs = [f'{canon(LA.term_of(i))}={canon_lin(l)}' for i, l in c.eq.items()]
    cs += [canon_lin(l) + '>=0' for l in c.ge]
    cs += [canon_lin(l) + '!=0' for l in c.ne]
    cs += [canon(f) for f in st.facts]
    cs += [canon(k) + '=' + str(v) for k, v in st.bools.items()]
    return tuple(sorted({x for x in cs if '?' not in x}))
