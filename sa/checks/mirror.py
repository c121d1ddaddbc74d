"""C09: reverse is the mirror image of forward.

Every function that takes a direction is analysed twice: once in the forward direction, once in reverse on an
object whose before and after sides are exchanged.  Both analyses must come to the same results, conditions,
writes and calls.
"""
import re
from .. import mir, interp as IP, lin as LA
from ..lin import atom, var
from . import base
from .base import canon, canon_state

DIRECTED = re.compile(r'^(my_)?(before|after)(_\w+)?$|^(will|is|are)_\w+$|^(apply|already_applied|already)(_\w+)?$|^\w*(_into|_nearby|_apply|_applied)$')
PAIRS = [('before', 'after'), ('old', 'new'), ('from', 'to'), ('left', 'right')]
DIFFLEVEL = ('ApplyClumpsFuzzy', 'ApplyClumpsClean')


def directed(f):
    return f.argc >= 2 and f.locals[f.argc].k == 'bool' and f.locals[1].k == 'ref' and base.selfname(f) is not None \
        and base.selfname(f).startswith('pw_') and DIRECTED.match(f.name) is not None


def swaps(p):
    out = {}
    for t in p.types.values():
        if t.k != 'adt' or not t.r['path'].startswith('pw_') or not t.r.get('has_fields') or len(t.r['variants']) != 1:
            continue
        fs = [(x['name'], x['ty'].name) for x in t.r['variants'][0]['fields']]
        perm = {}
        for i, (n, ty) in enumerate(fs):
            for a, b in PAIRS:
                for x, y in ((a, b), (b, a)):
                    if n == x or n.startswith(x + '_') or n.endswith('_' + x):
                        m = n.replace(x, y, 1)
                        for j, (n2, ty2) in enumerate(fs):
                            if n2 == m and ty2 == ty:
                                perm[i] = j
        if perm and not t.r['path'].endswith('::Changes') and not t.r['path'].endswith('Generator'):
            out[t.r['path']] = perm
    return out


def swap_change(v):
    """a change with its two sides exchanged; v: aggregate of the enum"""
    ty = v[1]
    names = [x['name'] for x in ty.r['variants']]
    n = names[v[2]]
    a = v[3]
    if n == 'NoChange':
        c = a[0]
        return ('agg', ty, v[2], (('agg', c[1], 0, (c[3][1], c[3][0], c[3][2])),))
    if n == 'Delete':
        return ('agg', ty, names.index('Insert'), (a[1], a[0]))
    if n == 'Insert':
        return ('agg', ty, names.index('Delete'), (a[1], a[0]))
    return ('agg', ty, v[2], (a[1], a[0]))


def explode(term, ty, depth=3):
    """an arbitrary value with its structs opened"""
    if ty.k == 'adt' and ty.r.get('has_fields') and len(ty.r.get('variants') or ()) == 1 and ty.r['path'].startswith('pw_') and depth:
        return ('agg', ty, 0, tuple(explode(('fld', term, 0, i), f['ty'], depth - 1) for i, f in enumerate(ty.r['variants'][0]['fields'])))
    return IP.mk_sym(term, ty)


def objects(ty):
    """(label, forward object, object with sides exchanged, swap fields symbolically?)"""
    if ty.r['kind'] == 'enum':
        out = []
        for i, v in enumerate(ty.r['variants']):
            o = ('agg', ty, i, tuple(explode(('p', 'self', v['name'], j), f['ty']) for j, f in enumerate(v['fields'])))
            out.append((v['name'], o, o))
        return out
    o = IP.mk_sym(('p', 'self'), ty)
    return [('', o, o)]


class Twin:
    def __init__(self, p, R):
        self.p, self.R = p, R
        self.swap = swaps(p)
        self.cache = {}

    def run(self, fn, obj, rev, swapped, opaque=(), flip=False, callee_hooks=True):
        """(results, events) of fn on obj; 'direction' of every opaque call is reported relative to the run"""
        I = IP.Interp(self.p)
        I.max_steps = 12000
        if opaque:
            I.peel, I.cap, I.coarse = 1, 12, True
        if swapped:
            I.fieldswap = self.swap
        ev = set()

        def on_event(I, st, e):
            if I.silent:
                return
            if e[0] in ('write', 'fail', 'push', 'ok', 'partial', 'unknown', 'pop', 'vecmut', 'insert'):
                if e[0] == 'unknown':
                    ev.add(canon((e[0], e[1].path)))
                elif e[0] in ('ok', 'fail'):
                    ev.add(canon(e[:2]))
                else:
                    ev.add(canon((e[0], e[1:3])))
        I.on_event = on_event
        if opaque:
            I.noinline = None

            def hook(I, st, c, args, rt):
                f = self.p.fns.get(c.key)
                b = args[-1]
                d = st.decide(b[1]) if b[0] == 'bool' else None
                if d is None:
                    d = '?'
                else:
                    d = 'same' if d == rev else 'opposite'
                if not I.silent:
                    ev.add(canon(('call', c.name, tuple(canon(I.strip(st, a)) if a[0] != 'ref' or a[1][0] != 'G' else canon(a) for a in args[:-1]), d)))
                s = st.copy()
                IP_models.havoc_args(I, s, args[1:])
                if rt is not None and rt.k == 'adt' and rt.r['path'] == 'core::result::Result':
                    return [(s.copy(), IP_models.ok(rt, I.opaque(IP_models.arg_ty(rt), c.name))), (s.copy(), IP_models.err(rt, I.opaque(IP_models.arg_ty(rt, 1), 'err')))]
                key = ('dir', c.name, canon(tuple(args[:-1])), d)
                return [(s, IP.mk_sym(IP.fresh(key), rt))] if rt is not None else [(s, IP.UNIT)]
            for k in opaque:
                I.hooks[k] = hook
        panics = set()
        I.on_panic = lambda I, st, f, kind, line, info: panics.add((kind, canon_state(st))) if not I.silent else None
        st = IP.State()
        args = [('refv', obj)]
        for i in range(2, fn.argc):
            args.append(base.arg(I, st, fn.locals[i], f'a{i}'))
        args.append(('bool', IP.TRUE if rev else IP.FALSE))
        try:
            rs = I.exec_fn(st, fn, args)
        except IP.Stop:
            return None
        self.R.add_interp(I)
        res = set()
        for s, v in rs:
            out = tuple(sorted(canon((l, w)) for l, w in s.mem.items() if l[0] == 'G'))
            res.add((canon(self.deep(I, s, v)), out, canon_state(s)))
        return res, frozenset(ev), frozenset(panics)

    def deep(self, I, st, v, depth=4):
        if depth and v[0] in ('ref', 'refv', 'box'):
            if v[0] == 'ref' and v[1][0] == 'G':
                return v
            return ('&', self.deep(I, st, I.deref_val(st, v), depth - 1))
        if depth and v[0] == 'agg':
            return ('agg', v[1], v[2], tuple(self.deep(I, st, x, depth - 1) for x in v[3]))
        return v


from .. import models as IP_models


def c09(R):
    R.rule('each function that takes a direction, analysed forward on an object and in reverse on the object with its sides exchanged, must behave identically')
    R.rule('an after query is the before query of the opposite direction')
    R.rule('a diff-level step hands its direction to every hunk-level step')
    p = mir.load()
    R.assume.append('summaries of the standard library in sa/models.py; loops are compared by their joined abstract states')
    T = Twin(p, R)
    fs = [f for f in p.fns.values() if f.crate.startswith('pw_') and not f.poly and '{closure' not in f.key and directed(f)]
    seen = {}
    for f in fs:
        # one instantiation per receiver type and function is enough
        t = f.locals[1].r['inner']
        g = [str(a) for a in (t.r.get('args') or []) if getattr(a, 'k', '') not in ('lifetime',)]
        if g and not any(x in ('u8', 'alloc::string::String') or x.endswith('lifetime') for x in g) and len(g) > 0 and 'ChangeClump' in t.r['path'] and t.r['path'].endswith('::ChangeClump'):
            continue
        seen.setdefault((t.name, f.name, tuple(f.locals[i].name for i in range(2, f.argc))), f)
    R.notes['directed_functions'] = len(seen)
    clumplevel = {f.key for f in fs if not any(d in f.key for d in DIFFLEVEL)}
    changes = {f.key for f in fs if base.selfname(f).endswith('::Change')}
    for (tn, name, _), f in sorted(seen.items(), key=lambda x: str(x[0])):
        ty = f.locals[1].r['inner']
        difflevel = any(d in f.key for d in DIFFLEVEL)
        opq = ()
        if difflevel:
            opq = clumplevel
        elif ty.r['path'].endswith('::ChangeClump'):
            opq = changes
        key = f'{ty.r["path"].split("::")[-1]}::{name}'
        for label, o, _ in objects(ty):
            enum = ty.r['kind'] == 'enum'
            a = T.run(f, o, False, False, opq)
            if a is None:
                # too big to be analysed with everything in line: its own steps only, those it calls have obligations of their own
                opq = clumplevel - {f.key}
                a = T.run(f, o, False, False, opq)
            b = T.run(f, swap_change(o) if enum else o, True, not enum and not difflevel, opq)
            if a is None or b is None:
                R.undecided('reverse-mirrors-forward', key + ': analysis budget')
                continue
            compare(R, 'reverse-mirrors-forward', key + (' ' + label if label else ''), a, b, 'in reverse it does not do what the forward direction does with the sides exchanged')
            # after_x(r) == before_x(!r)
            m = re.match(r'^(my_)?after(_\w+)?$', name)
            if m:
                g = seen.get((tn, (m.group(1) or '') + 'before' + (m.group(2) or ''), tuple(f.locals[i].name for i in range(2, f.argc))))
                if g is not None:
                    for r in (False, True):
                        x = T.run(f, o, r, False, opq)
                        y = T.run(g, o, not r, False, opq)
                        if x and y:
                            if opq:
                                x, y = (x[0], norm_dir(x[1]), x[2]), (y[0], norm_dir(y[1], True), y[2])
                            compare(R, 'after-is-before-of-the-opposite-direction', key + (' ' + label if label else ''), x, y, f'differs from {g.name} in the opposite direction')
    if len(seen) < 40:
        R.violate('anchor', 'directed functions', f'only {len(seen)} functions that take a direction were found')


def norm_dir(ev, flip=False):
    sw = {'same': 'opposite', 'opposite': 'same'}
    if not flip:
        return ev
    return frozenset(e.replace(' same)', ' @)').replace(' opposite)', ' same)').replace(' @)', ' opposite)') if e.startswith('(call ') else e for e in ev)


def compare(R, name, key, a, b, msg):
    if a == b:
        R.ok(name)
        return
    for i, what in enumerate(('results', 'writes and calls', 'panics')):
        if a[i] != b[i]:
            d1 = sorted(a[i] - b[i], key=str)[:1]
            d2 = sorted(b[i] - a[i], key=str)[:1]
            R.violate(name, key, f'{msg} ({what}: {str(d1)[:260]} against {str(d2)[:260]})')
            return
