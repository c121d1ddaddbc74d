"""C08: what the serialiser of a type emits is exactly what its deserialiser reassembles.

For every type with both directions the compiled serialiser is analysed with the serialiser trait replaced by a
recorder (which member, under which name or position, as which type, on which paths); the compiled deserialiser is
then analysed with the deserialiser trait replaced by a source that delivers exactly the recorded members.
"""
from .. import mir, interp as IP, models as MO
from . import base

SER = 'serde_core::ser::'
DE = 'serde_core::de::'
MAPLIKE = ('serialize_struct', 'serialize_map', 'serialize_struct_variant')
SEQLIKE = ('serialize_tuple_struct', 'serialize_tuple', 'serialize_seq', 'serialize_tuple_variant')


def tpath(t):
    while t is not None and t.k in ('ref', 'ptr'):
        t = t.r['inner']
    return t.r['path'] if t is not None and t.k == 'adt' else (t.name if t is not None else '?')


def lit(I, st, v):
    t = I.strip(st, v)
    if t[0] == 'str' and t[1][0] == 'lit':
        return t[1][1]
    return None


def ty_of(t):
    while t is not None and t.k == 'ref':
        t = t.r['inner']
    return t


class Wire:
    def __init__(self, p, R):
        self.p, self.R = p, R
        self.ser, self.de, self.vis = {}, {}, {}
        for f in p.fns.values():
            if not f.crate.startswith('pw_') or not f.poly:
                continue
            if f.name == 'serialize' and f.argc == 2 and f.locals[1].k == 'ref':
                self.ser[tpath(f.locals[1])] = f
            elif f.name == 'deserialize' and f.argc == 1 and f.locals[0].k == 'adt' and f.locals[0].r.get('args'):
                self.de[tpath(f.locals[0].r['args'][0])] = f
            elif f.name.startswith('visit_') and f.argc == 2:
                self.vis[(tpath(f.locals[1]), f.name)] = f

    # -------------------------------------------------------------- writer
    def writer(self, ty, val):
        """-> (list of (record, ok), unknown): what serialising val emits on each path that succeeds"""
        f = self.ser[ty.r['path']]
        I = IP.Interp(self.p)
        out, odd = [], []

        def put(s, ev):
            s.ghost['w'] = s.ghost.get('w', ()) + (ev,)

        def hook(I, st, c, args, rt):
            t = c.trait or ''
            if not t.startswith(SER):
                return None
            if c.key in self.p.fns and t == SER + 'Serialize':
                return None
            s = st.copy()
            n = c.name
            if t == SER + 'Serialize' and n == 'serialize':
                # the whole value is handed to another type's serialiser
                put(s, ('value', ty_of(c.args[0]).name if c.args else '?', I.strip(s, args[0])))
            elif t == SER + 'Serializer':
                if n in ('is_human_readable',):
                    return [(s, ('bool', IP.TRUE))]
                if n in ('serialize_newtype_variant',):
                    put(s, ('variant', 'newtype', lit(I, s, args[3]), MO_int(I, s, args[2])))
                    put(s, ('item', None, I.strip(s, args[4]), ty_of(c.args[-1]).name))
                elif n == 'serialize_newtype_struct':
                    put(s, ('open', 'newtype', None))
                    put(s, ('item', None, I.strip(s, args[2]), ty_of(c.args[-1]).name))
                elif n == 'serialize_unit_variant':
                    put(s, ('variant', 'unit', lit(I, s, args[3]), MO_int(I, s, args[2])))
                elif n in ('serialize_struct_variant', 'serialize_tuple_variant'):
                    put(s, ('variant', 'map' if n in MAPLIKE else 'seq', lit(I, s, args[3]), MO_int(I, s, args[2])))
                    put(s, ('declared', MO_int(I, s, args[4])))
                elif n in MAPLIKE or n in SEQLIKE:
                    put(s, ('open', 'map' if n in MAPLIKE else 'seq', None))
                    put(s, ('declared', MO_int(I, s, args[-1])))
                else:
                    put(s, ('scalar', n))
            elif n in ('serialize_field', 'serialize_entry', 'serialize_element'):
                key = lit(I, s, args[1]) if len(args) > 2 else None
                put(s, ('item', key, I.strip(s, args[-1]), ty_of(c.args[-1]).name))
            elif n == 'skip_field':
                put(s, ('skip', lit(I, s, args[1])))
            elif n == 'end':
                put(s, ('end',))
            else:
                put(s, ('scalar', n))
            e = s.copy()
            e.ghost['w'] = e.ghost['w'] + (('err',),)
            if rt is None or rt.k != 'adt':
                return [(s, I.opaque(rt, 'ser'))]
            return [(s, MO.ok(rt, I.opaque(MO.arg_ty(rt, 0), 'ser'))), (e, MO.err(rt, I.opaque(MO.arg_ty(rt, 1), 'e')))]
        I.prehook = hook
        st = IP.State()
        rs = I.exec_fn(st, f, [('refv', val), ('sym', ('p', 'serializer'), f.locals[2])])
        self.R.add_interp(I)
        for s, v in rs:
            rec = s.ghost.get('w', ())
            good = v[0] == 'agg' and v[1] is not None and v[1].r['path'] == 'core::result::Result'
            out.append((rec, v[2] == 0 if good else None))
        return out, bool(I.unmodelled)

    # -------------------------------------------------------------- reader
    def visitor(self, ty):
        """how a type asks to be read: [(method, visitor type, visitor value)]"""
        f = self.de.get(ty.r['path']) if ty.k == 'adt' else None
        if f is None:
            return None
        I = IP.Interp(self.p)
        got = []

        def hook(I, st, c, args, rt):
            if c.trait == DE + 'Deserializer':
                if c.name == 'is_human_readable':
                    return [(st, ('bool', IP.TRUE))]
                v = [(a, v) for a, v in zip(reversed(c.args), reversed(args))][:1]
                got.append((c.name, c.args[-1], args[-1]))
                return [(st.copy(), ('sym', ('visited',), rt))]
            return None
        I.prehook = hook
        rs = I.exec_fn(IP.State(), f, [('sym', ('p', 'deserializer'), f.locals[1])])
        self.R.add_interp(I)
        direct = all(v == ('sym', ('visited',), v[2] if len(v) > 2 else None) for s, v in rs)
        return got, direct

    def ident(self, I, st, kty, name, idx=None):
        """the identifier value the reader makes of a name: list of (state, value or None for refusal)"""
        vt = self.visitor(kty)
        if vt is None or len(vt[0]) != 1:
            return None
        m, vty, vv = vt[0][0]
        f = self.vis.get((tpath(vty), 'visit_str'))
        if f is None:
            return None
        rs = I.exec_fn(st, f, [vv, ('refv', ('str', ('lit', name)))])
        out = []
        for s, v in rs:
            if v[0] != 'agg':
                return None
            out.append((s, v[3][0] if v[2] == 0 else None))
        return out

    def reader(self, ty, rec):
        """feeds the recorded members to the reader of ty: list of (value or None on refusal, asked types), unknown"""
        vt = self.visitor(ty)
        if vt is None or len(vt[0]) != 1 or not vt[1]:
            return None
        method, vty, vv = vt[0][0]
        head = [e for e in rec if e[0] in ('open', 'variant')]
        items = [e for e in rec if e[0] == 'item']
        if len(head) != 1:
            return None
        head = head[0]
        kind = head[1]
        if head[0] == 'variant':
            name, how = 'visit_enum', None
        else:
            name = {'map': 'visit_map', 'seq': 'visit_seq', 'newtype': 'visit_newtype_struct'}[kind]
            okm = {'map': ('deserialize_struct', 'deserialize_map', 'deserialize_any'),
                   'seq': ('deserialize_tuple_struct', 'deserialize_tuple', 'deserialize_seq', 'deserialize_any'),
                   'newtype': ('deserialize_newtype_struct',)}[kind]
            if method not in okm:
                return ('mismatch', f'written as {kind}, read with {method}')
        if head[0] == 'variant' and method != 'deserialize_enum':
            return ('mismatch', f'written as a tagged variant, read with {method}')
        f = self.vis.get((tpath(vty), name))
        if f is None:
            return ('mismatch', f'the reader has no {name}')
        I = IP.Interp(self.p, peel=len(items) + 3)
        bad = []

        def errs(st, rt):
            e = st.copy()
            e.ghost['err'] = 1
            return (e, MO.err(rt, I.opaque(MO.arg_ty(rt, 1), 'e')))

        def give(s, i, vty_):
            if i >= len(items):
                return None
            s.ghost['given'] = s.ghost.get('given', ()) + ((i, vty_.name),)
            return IP.mk_sym(('got', i), vty_)

        def hook(I, st, c, args, rt):
            t = c.trait or ''
            if not t.startswith(DE):
                return None
            n = c.name
            if t == DE + 'Deserialize' and c.key in self.p.fns:
                return None
            if t == DE + 'Error' or t == DE + 'Expected':
                return [(st, I.opaque(rt, 'deerr'))]
            if t == DE + 'MapAccess' and n in ('next_key', 'next_entry'):
                pos = st.ghost.get('pos', 0)
                ort = MO.arg_ty(rt, 0)
                if pos >= len(items):
                    return [(st.copy(), MO.ok(rt, MO.none(ort))), errs(st, rt)]
                r = self.ident(I, st, c.args[1], items[pos][1])
                if r is None:
                    return None
                out = [errs(st, rt)]
                for s, v in r:
                    s = s.copy()
                    if v is None:
                        s.ghost['refused'] = items[pos][1]
                        out.append((s, MO.err(rt, I.opaque(MO.arg_ty(rt, 1), 'e'))))
                        continue
                    s.ghost['pos'] = pos + 1
                    if n == 'next_entry':
                        g = give(s, pos, c.args[2])
                        v = ('agg', MO.arg_ty(ort, 0), 0, (v, g))
                    out.append((s, MO.ok(rt, MO.some(ort, v))))
                return out
            if t == DE + 'MapAccess' and n == 'next_value':
                s = st.copy()
                g = give(s, st.ghost.get('pos', 0) - 1, c.args[1])
                return [errs(st, rt), (s, MO.ok(rt, g))]
            if t == DE + 'SeqAccess' and n == 'next_element':
                pos = st.ghost.get('pos', 0)
                ort = MO.arg_ty(rt, 0)
                s = st.copy()
                if pos >= len(items):
                    return [(s, MO.ok(rt, MO.none(ort))), errs(st, rt)]
                s.ghost['pos'] = pos + 1
                g = give(s, pos, c.args[1])
                return [errs(st, rt), (s, MO.ok(rt, MO.some(ort, g)))]
            if n == 'size_hint':
                return [(st, I.opaque(rt, 'hint'))]
            if t == DE + 'EnumAccess' and n == 'variant':
                r = self.ident(I, st, c.args[1], head[2])
                if r is None:
                    return None
                out = [errs(st, rt)]
                for s, v in r:
                    s = s.copy()
                    if v is None:
                        s.ghost['refused'] = head[2]
                        out.append((s, MO.err(rt, I.opaque(MO.arg_ty(rt, 1), 'e'))))
                    else:
                        out.append((s, MO.ok(rt, ('agg', MO.arg_ty(rt, 0), 0, (v, ('sym', ('variantaccess',), None))))))
                return out
            if t == DE + 'VariantAccess':
                want = {'newtype_variant': 'newtype', 'unit_variant': 'unit', 'struct_variant': 'map', 'tuple_variant': 'seq'}.get(n)
                if want is None:
                    return None
                if want != kind:
                    bad.append(f'variant {head[2]} is written as {kind} and read as {want}')
                s = st.copy()
                if want == 'newtype':
                    g = give(s, 0, c.args[1])
                    s.ghost['pos'] = 1
                    return [errs(st, rt)] + ([(s, MO.ok(rt, g))] if g is not None else [])
                if want == 'unit':
                    return [errs(st, rt), (s, MO.ok(rt, IP.UNIT))]
                fv = self.vis.get((tpath(c.args[-1]), 'visit_map' if want == 'map' else 'visit_seq'))
                if fv is None:
                    return None
                return [errs(st, rt)] + I.exec_fn(s, fv, [args[-1], ('sym', ('p', 'access'), fv.locals[2])])
            if t == DE + 'Deserialize' and n == 'deserialize':      # newtype structs
                s = st.copy()
                g = give(s, 0, c.args[0])
                return [errs(st, rt)] + ([(s, MO.ok(rt, g))] if g is not None else [])
            return None

        def pre(I, st, c, args, rt):
            if c.path.startswith('serde') and c.path.endswith('missing_field'):
                s = st.copy()
                s.ghost['missing'] = lit(I, s, args[0])
                return [(s, MO.err(rt, I.opaque(MO.arg_ty(rt, 1), 'e')))]
            return hook(I, st, c, args, rt)
        I.prehook = pre
        rs = I.exec_fn(IP.State(), f, [vv, ('sym', ('p', 'access'), f.locals[2])])
        self.R.add_interp(I)
        return I, rs, bad, items

    # -------------------------------------------------------------- one type
    def check(self, ty):
        R = self.R
        path = ty.r['path']
        short = path.split('::')[-1]
        if path not in self.de:
            R.violate('readable', path, f'{short} can be written but has no reader')
            return
        enum = ty.r['kind'] == 'enum'
        names = set()
        bareof = {}
        for vi, var in enumerate(ty.r['variants']):
            label = f"{short}::{var['name']}" if enum else short
            fields = [IP.mk_sym(('p', 'self', var['name'], i), f['ty']) for i, f in enumerate(var['fields'])]
            val = ('agg', ty, vi, tuple(fields))
            paths, unk = self.writer(ty, val)
            good = []
            for rec, okv in paths:
                if okv is None:
                    R.undecided('written', f'{label}: result of the serialiser')
                elif okv and ('err',) in rec:
                    R.violate('write errors', label, 'the serialiser reports success although a member failed to be written')
                elif okv:
                    good.append(rec)
            if not good:
                R.undecided('written', f'{label}: no successful path found')
                continue
            recs = list(dict.fromkeys(good))
            scalar = [e for rec in recs for e in rec if e[0] in ('scalar', 'value')]
            if enum and len(scalar) == 1 and scalar[0][0] == 'value' and len(recs) == 1:
                bareof.setdefault(len(fields) == 1 and var['fields'][0]['ty'].name, []).append(label)
            if scalar:
                R.undecided('written', f'{label}: custom serialiser ({scalar[0][1]})')
                continue
            if len(recs) > 1:
                # several shapes: which members are written depends on their values
                diff = set.symmetric_difference(*(set(map(repr, r)) for r in recs[:2]))
                for rec in recs:
                    self.one(ty, vi, var, label, val, fields, rec, 'conditional')
                continue
            self.one(ty, vi, var, label, val, fields, recs[0], '')
            h = [e for e in recs[0] if e[0] == 'variant']
            if enum and h:
                R.check('variant names distinct', h[0][2] not in names, label, f'two variants are written under the name {h[0][2]!r}')
                names.add(h[0][2])
        for t, ls in bareof.items():
            if t and len(ls) > 1:
                R.violate('tagged', ' '.join(ls), 'these variants are written without their name and cannot be told apart when read')

    def one(self, ty, vi, var, label, val, fields, rec, cond):
        R = self.R
        items = [e for e in rec if e[0] == 'item']
        dup = [e[1] for e in items if e[1] is not None]
        R.check('each member once', len(dup) == len(set(dup)), label, 'two members are written under one name')
        decl = [e[1] for e in rec if e[0] == 'declared']
        if decl and decl[0] is not None:
            R.check('declared count', decl[0] == len(items), label, f'{decl[0]} members announced, {len(items)} written')
        for i, f in enumerate(var['fields']):
            w = [e for e in items if e[2] == bare(fields[i])]
            nm = f"{label}.{f['name']}"
            if len(w) == 1:
                if w[0][3] != f['ty'].name and '__SerializeWith' not in w[0][3]:
                    R.undecided('member written', f'{nm}: as {w[0][3]}')
                else:
                    R.ok('member written')
            elif not w and any('__SerializeWith' in e[3] for e in items):
                R.undecided('member written', f'{nm}: converted')
            elif not w:
                R.violate('member written', nm, 'the member is not written' + (' on some path' if cond else ''))
            else:
                R.violate('member written', nm, 'the member is written more than once')
        r = self.reader(ty, rec)
        if r is None:
            R.undecided('read back', f'{label}: custom reader')
            return
        if r[0] == 'mismatch':
            R.violate('read back', label, r[1])
            return
        I, rs, bad, items = r
        for b in bad:
            R.violate('read back', label, b)
        accepted = [(s, v) for s, v in rs if v[0] == 'agg' and v[2] == 0]
        odd = [v for s, v in rs if v[0] != 'agg']
        if odd:
            R.undecided('read back', f'{label}: result of the reader')
            return
        if any(s.ghost.get('err') for s, v in accepted):
            R.violate('read errors', label, 'the reader reports success although a member could not be read')
        accepted = [(s, v) for s, v in accepted if not s.ghost.get('err')]
        clean_refusals = [s for s, v in rs if v[2] != 0 and not s.ghost.get('err')]
        if not accepted:
            why = [s.ghost.get('refused') or s.ghost.get('missing') for s in clean_refusals]
            R.violate('read back', label, f'the reader refuses what was written (name or member {", ".join(str(x) for x in sorted(set(map(str, why))))})')
            return
        R.check('accepts what was written', not [s for s in clean_refusals if s.ghost.get('refused') or s.ghost.get('missing')], label,
                'the reader may refuse what was written')
        for s, v in accepted:
            got = v[3][0]
            if got[0] != 'agg' or got[1] is not ty and got[1].r['path'] != ty.r['path']:
                R.undecided('read back', f'{label}: value built by the reader')
                continue
            if got[2] != vi:
                R.violate('read back', label, f"read back as {ty.r['variants'][got[2]]['name']}")
                continue
            asked = dict(s.ghost.get('given', ()))
            for i, f in enumerate(var['fields']):
                nm = f"{label}.{f['name']}"
                j = [k for k, e in enumerate(items) if e[2] == bare(fields[i])]
                if not j:
                    conv = [k for k, e in enumerate(items) if '__SerializeWith' in e[3] and e[1] == f['name']] \
                        or [k for k, e in enumerate(items) if '__SerializeWith' in e[3]]
                    if conv and len(conv) == 1 and asked.get(conv[0]) == f['ty'].name:
                        R.violate('member read back', nm, 'the member is converted when written but not when read')
                    elif conv:
                        R.undecided('member read back', f'{nm}: converted')
                    continue
                j = j[0]
                want = IP.mk_sym(('got', j), f['ty'])
                if got[3][i] == want:
                    if asked.get(j) not in (f['ty'].name, None) or items[j][3] != f['ty'].name:
                        R.violate('member read back', nm, f'written as {items[j][3]} but read as {asked.get(j)}')
                    else:
                        R.ok('member read back')
                else:
                    R.violate('member read back', nm, f'the member read back is not the one written as {items[j][1] or j}')
        # a reader that does not insist on a member makes up a value for it
        for j, e in enumerate(items):
            if e[1] is None:
                continue
            less = tuple(x for x in rec if x is not e)
            r2 = self.reader(ty, less)
            if r2 is None or r2[0] == 'mismatch':
                continue
            made = [s for s, v in r2[1] if v[0] == 'agg' and v[2] == 0 and not s.ghost.get('err')]
            R.check('no member defaulted', not made, f'{label}.{e[1]}', 'the reader accepts a diff without this member and makes up its value')


def bare(v):
    while v[0] in ('box', 'refv'):
        v = v[1]
    return v


def MO_int(I, st, v):
    if v[0] == 'int':
        l = st.canon(v[1])
        return l[0] if not l[1] else None
    return None


ENC = {'to_writer', 'to_writer_pretty', 'to_string', 'to_string_pretty', 'to_vec', 'to_vec_pretty'}
DEC = {'from_reader', 'from_str', 'from_slice'}


def entry_points(p, R):
    """to_writer hands the whole value to the JSON writer; from_reader returns exactly what the JSON reader made"""
    types = {}
    n = 0
    for f in p.fns.values():
        if not f.crate.startswith('pw_') or f.poly or f.argc < 1:
            continue
        calls = [b[1] for b in f.blocks if b and b[1][0] == 'call' and 'fn' in b[1][1] and b[1][1]['fn']['crate'] in ('serde_json', 'serde_core', 'serde')]
        used = {c[1]['fn']['name'] for c in calls}
        if not (used & (ENC | DEC)) and f.name not in ('to_writer', 'from_reader'):
            continue
        n += 1
        writer = f.name == 'to_writer' or (used & ENC)
        owner = base.selfname(f) if writer else tpath(f.locals[0].r['args'][0] if f.locals[0].k == 'adt' and f.locals[0].r.get('args') else None)
        label = f.path
        I = IP.Interp(p)
        I.max_steps = 20000
        st = IP.State()
        args = [base.arg(I, st, f.locals[i + 1], f'a{i}') for i in range(f.argc)]
        selfv = I.strip(st, args[0])

        def hook(I, st, c, a, rt):
            if c.crate == 'serde_json' and c.name in ENC or (c.trait == SER + 'Serialize' and c.name == 'serialize'):
                s = st.copy()
                vals = [I.strip(s, x) for x in a]
                whole = selfv in vals
                s.ghost['enc'] = s.ghost.get('enc', ()) + (whole,)
                e = s.copy()
                e.ghost['err'] = 1
                if rt is None or rt.k != 'adt' or rt.r['path'] != 'core::result::Result':
                    return [(s, I.opaque(rt, 'enc'))]
                okv = IP.UNIT if MO.arg_ty(rt, 0) is not None and MO.arg_ty(rt, 0).k == 'tuple' else IP.mk_sym(('encoded',), MO.arg_ty(rt, 0))
                return [(s, MO.ok(rt, okv)), (e, MO.err(rt, I.opaque(MO.arg_ty(rt, 1), 'e')))]
            if c.crate == 'serde_json' and c.name in DEC:
                s = st.copy()
                e = s.copy()
                e.ghost['err'] = 1
                s.ghost['dec'] = s.ghost.get('dec', ()) + (I.strip(s, a[0]) == I.strip(st, args[0]),)
                return [(s, MO.ok(rt, IP.mk_sym(('decoded',), MO.arg_ty(rt, 0)))), (e, MO.err(rt, I.opaque(MO.arg_ty(rt, 1), 'e')))]
            if c.name in ('take', 'chain') and c.path.endswith('::Read::' + c.name):
                st = st.copy()
                R.violate('whole input', label, f'the reader is limited or extended by {c.name} before parsing')
            return None
        I.prehook = hook

        def ev(I, st, e):
            if e[0] == 'write' and f.name == 'to_writer' and not I.silent:
                r = repr(e[1])
                if "'encoded'" not in r and 'newline' not in r:
                    st.ghost['extra'] = 'literal text' if "'lit'" in r else 'other text'
            if e[0] in ('vecmut', 'pop', 'push', 'sort') and not I.silent:
                st.ghost['mut'] = e[0]
        I.on_event = ev
        try:
            rs = I.exec_fn(st, f, args)
        except IP.Stop:
            R.undecided('entry point', label)
            continue
        R.add_interp(I)
        for s, v in rs:
            isres = v[0] == 'agg' and v[1] is not None and v[1].k == 'adt' and v[1].r['path'] == 'core::result::Result'
            if not isres:
                R.undecided('entry point', label)
                continue
            if v[2] != 0:
                continue
            if f.name == 'to_writer':
                enc = s.ghost.get('enc', ())
                if s.ghost.get('err'):
                    R.violate('entry point', label, 'reports success although encoding failed')
                elif len(enc) != 1:
                    R.violate('entry point', label, f'the value is encoded {len(enc)} times on a successful path') if len(enc) > 1 else R.undecided('entry point', f'{label}: own encoder')
                elif not enc[0]:
                    R.violate('entry point', label, 'what is encoded is not the value itself')
                else:
                    R.ok('entry point')
                if s.ghost.get('extra'):
                    R.violate('nothing but the encoding', label, 'text that is not part of the encoding is written: ' + s.ghost['extra'])
            elif f.name == 'from_reader':
                dec = s.ghost.get('dec', ())
                got = v[3][0]
                whole = IP.mk_sym(('decoded',), got[2] if got[0] == 'sym' else got[1])
                if s.ghost.get('err'):
                    R.violate('entry point', label, 'reports success although decoding failed')
                elif len(dec) != 1:
                    R.undecided('entry point', f'{label}: own decoder')
                elif not dec[0]:
                    R.undecided('entry point', f'{label}: what is decoded')
                elif same(I, s, got, ('decoded',)):
                    R.ok('entry point')
                elif s.ghost.get('mut') or not base.has_u(got):
                    R.violate('entry point', label, 'what is returned is not what was decoded')
                else:
                    R.undecided('entry point', f'{label}: value returned')
    return n


def same(I, st, v, term):
    if v[0] == 'sym':
        return v[1] == term
    if v[0] == 'agg' and v[1] is not None and v[1].k == 'adt' and len(v[1].r.get('variants') or ()) == 1:
        return all(v[3][i] == IP.mk_sym(('fld', term, 0, i), f['ty']) or same(I, st, v[3][i], ('fld', term, 0, i))
                   for i, f in enumerate(v[1].r['variants'][0]['fields']))
    return False


def c08(R):
    p = mir.load()
    R.rule('the serialiser emits every member of the type once, on every path, as its own type')
    R.rule('the deserialiser, fed exactly what the serialiser emitted, rebuilds each member from the entry it was written to, refuses '
           'nothing that was written, and makes up no member that is absent')
    R.rule('to_writer encodes the whole value once and nothing else; from_reader returns exactly what was decoded')
    R.assume.append("serde's and serde_json's own implementations for std types (integers, bool, String, PathBuf, Box<[T]>, Vec, tuples) are inverse to each other")
    w = Wire(p, R)
    roots = [path for path in w.ser if path.startswith('pw_') and '__' not in path]
    # roots and everything reachable through members
    tys = {}
    for path in sorted(roots):
        t = ty_of(w.ser[path].locals[1])
        tys[path] = t
    for path in sorted(w.de):
        if path.startswith('pw_') and '__' not in path and path not in tys:
            R.undecided('written', f'{path} can be read but not written')
    for need in ('Diff', 'TextChangeDiff', 'ByteChangeDiff'):
        R.check('diff type serialisable', any(x.split('::')[-1] == need for x in tys), need, 'the diff type has no serialiser')
    for path, t in tys.items():
        w.check(t)
    n = entry_points(p, R)
    R.notes['types'] = sorted(tys)
    R.notes['entry_points'] = n
