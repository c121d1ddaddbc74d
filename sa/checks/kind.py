"""C23: which diff is made of which inputs, and what it records."""
from .. import mir, interp as IP, models as MO
from ..models import content
from . import base

MADE = ('TextChangeDiff', 'ByteChangeDiff', 'PathAndLines', 'PathAndBytes')
KIND = {'TextChange': ('change', 'text'), 'ByteChange': ('change', 'byte'), 'TextAdd': ('add', 'text'), 'ByteAdd': ('add', 'byte'),
        'TextRemove': ('remove', 'text'), 'ByteRemove': ('remove', 'byte')}
EXPECT = {(True, True): 'change', (True, False): 'remove', (False, True): 'add', (False, False): 'error'}


def result_of(rt):
    """path of T in Result<T, _>"""
    if rt is not None and rt.k == 'adt' and rt.r['path'] == 'core::result::Result' and rt.r.get('args'):
        t = rt.r['args'][0]
        return t.r['path'] if t.k == 'adt' else None
    return None


def short(p):
    return p.split('::')[-1] if p else None


def made_hook(p, names, self_key):
    def h(I, st, c, args, rt):
        f = p.fns.get(c.key)
        if f is None or not f.crate.startswith('pw_') or c.key == self_key:
            return None
        n = short(result_of(rt))
        if n not in names:
            return None
        a = tuple(content(I, st, x) if I.strip(st, x)[0] != 'int' else I.strip(st, x)[1] for x in args)
        s, e = st.copy(), st.copy()
        s.ghost['made'] = s.ghost.get('made', ()) + ((n, a),)
        e.ghost['unmade'] = e.ghost.get('unmade', ()) + ((n, a),)
        return [(s, MO.ok(rt, ('sym', ('made', n, a), MO.arg_ty(rt, 0)))), (e, MO.err(rt, I.opaque(MO.arg_ty(rt, 1), 'err')))]
    return h


def field_content(I, st, v, ty, name):
    for i, f in enumerate(ty.r['variants'][0]['fields']):
        if f['name'] == name:
            return content(I, st, I.field(st, v, i, 0, f['ty']))
    return None


def new_diff(R, p):
    cands = [f for f in p.fns.values() if f.crate == 'pw_diff_lib' and not f.poly and f.name == 'new' and f.argc == 3
             and short(result_of(f.locals[0])) == 'Diff']
    if not cands:
        R.violate('anchor', 'Diff::new', 'the function that makes a diff of two files is gone')
        return
    f = cands[0]
    I = IP.Interp(p)
    I.prehook = made_hook(p, MADE, f.key)
    st = IP.State()
    args = [base.arg(I, st, f.locals[i + 1], f'a{i + 1}') for i in range(3)]
    bt, at = content(I, st, args[0]), content(I, st, args[1])
    ctx = I.strip(st, args[2])[1]
    asked = set()

    def ev(I, st, e):
        pass
    I.on_event = ev
    rs = I.exec_fn(st, f, args)
    R.add_interp(I)
    for s, v in rs:
        for b in s.bools:
            if b[0] in ('exists', 'is_file', 'is_dir'):
                asked.add(b[1])
    n = 0
    for s, v in rs:
        n += 1
        if v[0] != 'agg' or v[2] not in (0, 1):
            R.undecided('outcome', 'value returned')
            continue
        made, unmade = s.ghost.get('made', ()), s.ghost.get('unmade', ())

        def ex(t):
            for k in ('exists', 'is_file'):
                d = s.decide(('b', (k, t)))
                if d is not None:
                    return d
            # a file that was read exists
            if any(t in a for m, a in made):
                return True
            return None
        poss = [(x, y) for x in (True, False) for y in (True, False) if ex(bt) in (x, None) and ex(at) in (y, None)]
        exp = {EXPECT[q] for q in poss}
        if v[2] == 1:
            if 'error' in exp and len(exp) == 1:
                R.ok('neither exists: an error')
                continue
            byte = [m for m, a in unmade if m in ('ByteChangeDiff', 'PathAndBytes')]
            if byte:
                R.ok('error only if bytes cannot be read either')
            elif 'error' in exp and (bt not in asked or at not in asked):
                R.undecided('error only if bytes cannot be read either', 'existence is established in another way')
            else:
                R.violate('error only if bytes cannot be read either', '/'.join(sorted(exp)),
                          'an error is returned although the inputs exist and were not tried as bytes' if unmade or 'error' not in exp else
                          'an error is returned without both inputs being missing')
            continue
        d = v[3][0]
        if d[0] != 'agg':
            R.undecided('outcome', 'diff returned')
            continue
        var = d[1].r['variants'][d[2]]
        kind, enc = KIND.get(var['name'], (None, None))
        if kind is None:
            R.undecided('outcome', var['name'])
            continue
        if exp == {kind}:
            R.ok('kind of diff')
        elif kind not in exp:
            R.violate('kind of diff', var['name'], f'{var["name"]} is returned where {"/".join(sorted(exp))} is due')
        elif bt in asked and at in asked:
            R.violate('kind of diff', var['name'], f'{var["name"]} is returned without making sure which inputs exist')
        else:
            R.undecided('kind of diff', var['name'])
        x = d[3][0]
        ty = var['fields'][0]['ty']
        want = {'change': (bt, at), 'remove': (bt,), 'add': (at,)}[kind]
        # which constructor result is it made of?
        term, path = None, None
        if x[0] == 'sym' and x[1][0] == 'made':
            term = x[1]
        elif x[0] == 'agg':
            for i, fl in enumerate(ty.r['variants'][0]['fields']):
                fv = x[3][i]
                t = MO.content(I, s, fv) if fl['name'] != 'path' else None
                u = fv
                while u[0] in ('box', 'refv'):
                    u = u[1]
                t = u[1] if u[0] in ('sym', 'isym') else t
                if isinstance(t, tuple) and t and t[0] == 'fld' and t[1][0] == 'made' and t[3] == i and fl['name'] in ('lines', 'bytes', 'clumps'):
                    term = t[1]
        if term is None:
            R.undecided('content recorded', var['name'])
            continue
        m, a = term[1], term[2]
        R.check('content recorded', a[:len(want)] == want, var['name'], f'{var["name"]} is made from the wrong input')
        if kind == 'change':
            R.check('context requested', len(a) < 3 or a[2] == ctx, var['name'], f'{var["name"]} is made with another amount of context than requested')
        else:
            pth = field_content(I, s, x, ty, 'path') if x[0] == 'agg' else a[0]
            if pth is None:
                R.undecided('path recorded', var['name'])
            else:
                R.check('path recorded', pth == bt, var['name'], f'{var["name"]} does not record the path given as before')
        if enc == 'byte':
            tname = 'TextChangeDiff' if kind == 'change' else 'PathAndLines'
            R.check('bytes only if text fails', any(m2 == tname and a2[:len(want)] == want for m2, a2 in unmade), var['name'],
                    f'{var["name"]} is returned although the inputs were not found to be unreadable as text')
    for k in I.unmodelled:
        R.undecided('modelled calls', k)
    R.notes['outcomes_of_diff_new'] = n


def constructors(R, p):
    """the constructors record the paths they are given and read the files these name, in that order"""
    for f in sorted(p.fns.values(), key=lambda f: f.key):
        n = short(result_of(f.locals[0])) if f.locals else None
        if f.crate != 'pw_diff_lib' or f.poly or n not in MADE or f.name != 'new' or '{' in f.key:
            continue
        I = IP.Interp(p)
        I.max_steps = 30000

        def hook(I, st, c, args, rt):
            g = p.fns.get(c.key)
            if g is None or not g.crate.startswith('pw_'):
                return None
            r = result_of(rt)
            if r is not None and short(r) == 'Seq':
                s, e = st.copy(), st.copy()
                return [(s, MO.ok(rt, ('sym', ('seqof', content(I, s, args[0]), MO.arg_ty(rt, 0).name), MO.arg_ty(rt, 0)))),
                        (e, MO.err(rt, I.opaque(MO.arg_ty(rt, 1), 'err')))]
            if rt is not None and rt.k == 'adt' and short(rt.r['path']) == 'Changes':
                s = st.copy()
                s.ghost['changes'] = tuple(content(I, s, a) for a in args)
                return [(s, ('sym', ('changes',), rt))]
            if c.name == 'change_clumps':
                s = st.copy()
                s.ghost['ctx'] = I.strip(s, args[1])[1] if len(args) > 1 and I.strip(s, args[1])[0] == 'int' else None
                return [(s, I.opaque(rt, 'clumps'))]
            return None
        I.prehook = hook
        st = IP.State()
        args = [base.arg(I, st, f.locals[i + 1], f'a{i + 1}') for i in range(f.argc)]
        paths = [content(I, st, a) for a, t in zip(args, f.locals[1:]) if 'Path' in t.name]
        try:
            rs = I.exec_fn(st, f, args)
        except IP.Stop:
            R.undecided('constructor', f.path)
            continue
        R.add_interp(I)
        ty = f.locals[0].r['args'][0]
        fields = [x['name'] for x in ty.r['variants'][0]['fields']]
        pf = [x for x in fields if x == 'path' or x.endswith('_path')]
        for s, v in rs:
            if v[0] != 'agg' or v[2] != 0:
                continue
            x = v[3][0]
            for nm, want in zip(pf, paths):
                t = field_content(I, s, x, ty, nm)
                R.check('constructor records its paths', t == want if t is not None and not base.has_u(t) else None, f'{n}.{nm}', f'{nm} is not the path given')
            ch = s.ghost.get('changes')
            if n in ('TextChangeDiff', 'ByteChangeDiff'):
                if ch is None or len(ch) < 2:
                    R.undecided('constructor compares its files', n)
                else:
                    want = [opened(c) for c in ch[:2]]
                    R.check('constructor compares its files', want == paths if None not in want else None, n, 'the files compared are not before and after in that order')
                cx = s.ghost.get('ctx')
                if len(args) > 2 and cx is not None:
                    d = s.ent_eq(IP.sub(cx, args[2][1])) if args[2][0] == 'int' else None
                    R.check('constructor passes the context on', True if d else (None if base.has_u(cx) else False), n, 'hunks are made with another amount of context than requested')


def opened(t):
    """path term of the file whose content t is"""
    if isinstance(t, tuple) and t and t[0] == 'seqof':
        t = t[1]
        while isinstance(t, tuple) and t and t[0] == 'bufio':
            t = t[2]
        if isinstance(t, tuple) and t[0] == 'file' and t[1] == 'open' and len(t[2]) == 1:
            return t[2][0]
    return None


def command(R, p):
    """the command hands its arguments over as given"""
    f = next((f for f in p.fns.values() if f.key == 'pw_diff::main' or (f.crate == 'pw_diff' and f.name == 'main')), None)
    if f is None:
        R.violate('anchor', 'pw_diff::main', 'the command entry point is gone')
        return
    I = IP.Interp(p)
    got = []

    def hook(I, st, c, args, rt):
        g = p.fns.get(c.key)
        if g is not None and short(result_of(rt)) == 'Diff':
            got.append(tuple(content(I, st, a) if I.strip(st, a)[0] != 'int' else st.canon(I.strip(st, a)[1]) for a in args))
            s, e = st.copy(), st.copy()
            return [(s, MO.ok(rt, ('sym', ('thediff',), MO.arg_ty(rt, 0)))), (e, MO.err(rt, I.opaque(MO.arg_ty(rt, 1), 'err')))]
        return None
    I.prehook = hook
    try:
        I.exec_fn(IP.State(), f, [])
    except IP.Stop:
        pass
    R.add_interp(I)
    cli = next((t for t in p.types.values() if t.k == 'adt' and t.r.get('has_fields') and t.r['path'].startswith('pw_diff::') and len(t.r['variants']) == 1
                and any('before' in x['name'] for x in t.r['variants'][0]['fields'])), None)
    if cli is None or not got:
        R.undecided('command arguments', 'no call found')
        return
    idx = {x['name']: i for i, x in enumerate(cli.r['variants'][0]['fields'])}
    b = next(i for n, i in idx.items() if 'before' in n)
    a = next((i for n, i in idx.items() if 'after' in n), None)
    for g in got:
        ok = len(g) >= 2 and g[0] == ('fld', ('p', 'args'), 0, b) and g[1] == ('fld', ('p', 'args'), 0, a)
        R.check('command arguments', ok if ok or not base.has_u(g) else None, 'pw_diff::main', 'the diff is not made of the two paths given, in that order')


def c23(R):
    p = mir.load()
    R.rule('on every path through Diff::new the kind returned agrees with what is known about the existence of the inputs')
    R.rule('bytes only after the text constructor failed on the same inputs; an error only when neither exists or bytes failed too')
    R.rule('the value returned was constructed from the right input, with the requested context, and records the given paths')
    R.assume.append('an input that could be read exists; the file system does not change while a diff is made')
    new_diff(R, p)
    constructors(R, p)
    command(R, p)
