"""C20: unified hunks as they are written."""
import os
import re
from .. import mir, interp as IP, lin as LA, models as MO
from ..lin import var, const, add, sub, addc, neg, atom, ZERO
from . import base
from .engine import tyname
from .script import lin, changes_of, valid, parts
from .differ import small

CRATE = 'pw_cub_diff_lib'
BODY = 'the body is exactly the lines of the hunk, each with its marker and from its own input'
MARK = 'a line without a newline is followed by the marker that says so, and no other line is'
HEAD = 'the header gives the starts of the hunk and the number of lines of its body on each side'
MARKER = re.compile(r'\n\\[^\n]*\n?\Z')


def flat(t):
    """pieces of a text, neighbouring literals joined"""
    out = []

    def go(t):
        if t[0] == 'cat':
            go(t[1])
            go(t[2])
        elif t[0] == 'lit':
            if t[1]:
                if out and out[-1][0] == 'lit':
                    out[-1] = ('lit', out[-1][1] + t[1])
                else:
                    out.append(('lit', t[1]))
        else:
            out.append(t)
    go(t)
    return out


def display_fn(p, ty):
    for f in p.fns.values():
        if f.name == 'fmt' and not f.poly and f.argc == 2 and 'Display' in (f.path + f.key):
            t = f.locals[1]
            t = t.r['inner'] if t.k == 'ref' else t
            if t is ty:
                return f
    return None


def expand(I, st, t):
    """(state, text) with every value that displays itself written out"""
    if t[0] == 'cat':
        return [(s2, MO.cat(a, b)) for s, a in expand(I, st, t[1]) for s2, b in expand(I, s, t[2])]
    if t[0] == 'display':
        v = t[1]
        ty = v[1] if v[0] == 'agg' else (v[2] if v[0] == 'sym' else None)
        f = display_fn(I.p, ty) if ty is not None else None
        if f is None:
            return [(st, t)]
        loc = ('G', 'fmt.out')
        s = st.copy()
        s.mem[loc] = ('str', ('lit', ''))
        out = []
        for s2, r in I.exec_fn(s, f, [('refv', v), ('ref', loc, ())]):
            r = I.strip(s2, r)
            if r[0] == 'agg' and r[2] == 1:
                continue
            c = MO.content(I, s2, s2.mem[loc])
            out += expand(I, s2, c) if c is not None else [(s2, ('u', 'fmt'))]
        return out
    return [(st, t)]


def pieces_of_header(ps):
    """((start, length), (start, length)) as linear values; length None if not written; a text if it is not a header; None if not understood"""
    toks = []
    for x in ps:
        if x[0] == 'lit':
            toks += list(x[1])
        elif x[0] == 'dec':
            toks.append(x)
        else:
            return None
    i = 0
    out = []

    def num():
        nonlocal i
        if i < len(toks) and isinstance(toks[i], tuple):
            i += 1
            return toks[i - 1][1]
        j = i
        while i < len(toks) and isinstance(toks[i], str) and toks[i].isdigit():
            i += 1
        return const(int(''.join(toks[j:i]))) if i > j and not (i < len(toks) and isinstance(toks[i], tuple)) else None

    def text(s):
        nonlocal i
        if toks[i:i + len(s)] == list(s):
            i += len(s)
            return True
        return False

    for lead in ('@@ -', ' +'):
        if not text(lead):
            return f'"{lead}" is missing'
        a = num()
        if a is None:
            return 'a start is missing'
        b = None
        if i < len(toks) and toks[i] == ',':
            i += 1
            b = num()
            if b is None:
                return 'a length is missing'
        out.append((a, b))
    if not text(' @@'):
        return '" @@" is missing'
    if i < len(toks) and toks[i] not in (' ', '\n'):
        return 'something is written directly after "@@"'
    return tuple(out)


class Emit:
    """every hunk with few lines, written out and compared with what it covers"""

    def __init__(self, R, p, f, few):
        self.R, self.p, self.f, self.few = R, p, f, few
        self.long = 2 * few + 2
        self.key = 'UnifiedClumpIter::next'
        self.me = f.locals[1].r['inner']
        self.fs = {x['name']: (i, x['ty']) for i, x in enumerate(self.me.r['variants'][0]['fields'])}

    def shapes(self):
        """every sequence of kinds and lengths whose lines are few"""
        out = []

        def go(pre, left):
            if pre and any(k != 'NoChange' for k, _, _ in pre):
                out.append(tuple(pre))
            for n in range(1, left + 1):
                for k, b, a in (('NoChange', n, n), ('Delete', n, 0), ('Insert', 0, n)):
                    if pre and pre[-1][0] == k:
                        continue
                    go(pre + [(k, b, a)], left - n)
                for m in range(1, left - n + 1):
                    if not (pre and pre[-1][0] == 'Replace'):
                        go(pre + [('Replace', n, m)], left - n - m)
        go([], self.few)
        # some long ones
        L = self.long
        run, rem, ins, rep = ('NoChange', 1, 1), ('Delete', 1, 0), ('Insert', 0, 1), ('Replace', 1, 1)
        out += [(('Delete', L, 0),), (('Insert', 0, L),), (('Replace', L, L),), (('Replace', L, L - 1),), (('Replace', L - 1, L),),
                (('NoChange', L, L), rem, ('NoChange', L, L)), (rem, ('NoChange', L, L), ins), (run, rem, run, ins, run, rep, run), (rep, rep, rep, run, rep)]
        return out

    def hook(self, I, st, c, args, rt):
        f = self.p.fns.get(c.key)
        if c.name == 'next' and f is not None and f.crate == 'pw_diff_lib' and tyname(rt) == 'Option' and tyname(rt.r['args'][0]) == 'ChangeClump' and self.clump is not None:
            return [(st, MO.some(rt, self.clump))]
        if c.name == 'to_string' and args:
            v = I.strip(st, args[0])
            ty = v[1] if v[0] == 'agg' else (v[2] if v[0] == 'sym' else None)
            if ty is not None and ty.k == 'adt' and display_fn(self.p, ty) is not None:
                return [(st, ('str', ('display', v)))]
        return None

    def newline(self, I, st, seq, idx, v):
        """only the last line of an input can lack its newline"""
        q = I.seqid(seq)
        if q is None or q[0] not in self.inputs:
            return
        i = add(q[1], idx)
        n = var(atom(('len', q[0]), 0, LA.MAX))
        if st.ent_ge(addc(sub(n, i), -2)):
            t = MO.content(I, st, v)
            if t is not None and t[0] == 'elem':
                f = MO.ends(t, '\n')
                if f[0] == 'b':
                    st.bools[f[1]] = True

    def start(self, I, shape):
        st = IP.State()
        self.inputs = {}
        cty = None
        for n, (i, t) in self.fs.items():
            if tyname(t) == 'ChangeClumpIter':
                cty = t
        item = next((f.locals[0].r['args'][0] for f in self.p.fns.values() if f.name == 'next' and f.crate == 'pw_diff_lib' and f.argc == 1 and not f.poly
                     and tyname(f.locals[0]) == 'Option' and tyname(f.locals[0].r['args'][0]) == 'ChangeClump'
                     and f.locals[1].r['inner'].r['args'] == cty.r['args']), None) if cty is not None else None
        if item is None:
            return []
        cf = {x['name']: (i, x['ty']) for i, x in enumerate(item.r['variants'][0]['fields'])}
        me = []
        src = {}
        for n, (i, t) in self.fs.items():
            if n in ('before', 'after') and t.k == 'ref':
                v = IP.mk_sym(('p', n), t.r['inner'])
                me.append(('refv', v))
                src[n] = I.strip(st, I.field(st, v, 0, 0))
            else:
                me.append(IP.mk_sym(('p', n), t))
        if set(src) != {'before', 'after'} or 'changes' not in cf:
            return []
        vals = []
        for n, (i, t) in cf.items():
            if n in ('before', 'after'):
                k = next((j for m, (j, _) in self.fs.items() if m == n))
                vals.append(me[k])
            else:
                vals.append(IP.mk_sym(('p', 'clump', n), t))
        self.clump = ('agg', item, 0, tuple(vals))
        ch = I.strip(st, vals[cf['changes'][0]])
        st.eq(addc(I.seqlen(st, ch), -len(shape)))
        states = [st]
        self.at = {}
        pos = [None, None]
        first = None
        for j, (kind, nb, na) in enumerate(shape):
            out = []
            for s in states:
                for s2, q in changes_of(I, s, I.elem(s, ch, const(j))) or []:
                    if q[0] != kind:
                        continue
                    if pos[0] is not None:
                        s2.eq(sub(q[1], pos[0]))
                        s2.eq(sub(q[3], pos[1]))
                    s2.eq(addc(sub(q[2], q[1]), -nb))
                    s2.eq(addc(sub(q[4], q[3]), -na))
                    if first is None:
                        first = (q[1], q[3])
                    if not s2.cons.bad:
                        out.append(s2)
            states = out
            if not states:
                return []
            pos = [addc(first[0], sum(x[1] for x in shape[:j + 1])), addc(first[1], sum(x[2] for x in shape[:j + 1]))]
        self.first = first
        self.src = src
        self.ids = {}
        out = []
        for s in states:
            for k, n in (('before', 0), ('after', 1)):
                small(s, first[n])
                q = I.seqid(src[k])
                self.inputs[q[0]] = k
                self.ids[k] = q
                s.ge(sub(I.seqlen(s, src[k]), pos[n]))
            if s.cons.bad:
                continue
            for x in (True, False):
                for s2 in s.assume(IP.feq(sub(I.seqlen(s, src['before']), pos[0])), x):
                    for y in (True, False):
                        for s3 in s2.assume(IP.feq(sub(I.seqlen(s2, src['after']), pos[1])), y):
                            if not s3.cons.bad:
                                s3.mem[('G', 'me')] = ('agg', self.me, 0, tuple(me))
                                out.append(s3)
        return out

    # ------------------------------------------------------------------
    def run(self):
        R = self.R
        n = 0
        stop = False
        I = IP.Interp(self.p)
        I.peel = 3 * self.long + 4
        I.cap = 20000
        I.max_steps = 4000000
        I.prehook = self.hook
        I.seqinv.append(self.newline)
        self.clump = None
        self.heads = set()
        for shape in self.shapes():
            for st in self.start(I, shape):
                try:
                    self.one(I, st, shape)
                    n += 1
                except IP.Stop:
                    R.undecided(BODY, f'{self.key}: analysis budget')
                    stop = True
                    break
            if stop:
                break
        if not n:
            R.undecided('anchor', f'{self.key}: nothing followed')
        R.notes['hunk shapes'] = len(self.shapes())
        R.add_interp(I)

    def one(self, I, st, shape):
        R = self.R
        for s, v in I.exec_fn(st, self.f, [('ref', ('G', 'me'), ())]):
            v = I.strip(s, v)
            if v[0] != 'agg':
                R.undecided(BODY, f'{self.key}: result')
            elif v[2] == 0:
                R.check(BODY, None if I.unmodelled or s.wid else False, f'{self.key} none', 'a hunk of the script is not written')
            else:
                self.result(I, s, I.strip(s, v[3][0]), shape)

    def judge(self, I, st, name, key, msg):
        """something is not as it should be in a state that was followed exactly"""
        if st.wid or I.unmodelled:
            self.R.undecided(name, f'{key}: {msg}')
        else:
            self.R.violate(name, key, msg)

    def result(self, I, st, h, shape):
        R, key = self.R, self.key
        fs = {x['name']: i for i, x in enumerate(h[1].r['variants'][0]['fields'])} if h[0] == 'agg' else {}
        if not {'header', 'lines'} <= set(fs):
            R.undecided('anchor', 'fields of an emitted hunk')
            return
        q = I.strip(st, I.field(st, h, fs['lines'], 0))
        n = I.seqlen(st, q)
        n = st.canon(n) if n is not None else None
        if n is None or n[1]:
            R.undecided(BODY, f'{key}: number of lines')
        else:
            self.body(I, st, [MO.content(I, st, I.elem(st, q, const(k))) for k in range(n[0])], shape)
        t = MO.content(I, st, I.field(st, h, fs['header'], 0))
        if t is None:
            R.undecided(HEAD, f'{key}: header')
            return
        if (shape, t) in self.heads:
            return
        self.heads.add((shape, t))
        for s, t2 in expand(I, st, t):
            self.header(I, s, flat(t2), shape)

    def header(self, I, st, ps, shape):
        R, key = self.R, self.key
        h = pieces_of_header(ps)
        if h is None:
            R.undecided(HEAD, f'{key}: pieces of the header')
            return
        if isinstance(h, str):
            self.judge(I, st, HEAD, f'{key} form', f'the header does not have the form of one: {h}')
            return
        for n, side in ((0, 'before'), (1, 'after')):
            want = sum(x[n + 1] for x in shape)
            a, b = h[n]
            base.oblige(R, I, st, HEAD, IP.feq(addc(b if b is not None else const(1), -want)), f'{key} {side} length', f'the {side} length in the header is not the number of {side} lines')
            d = sub(a, self.first[n])
            if st.ent_eq(d) or st.ent_eq(addc(d, -1)):
                R.ok(HEAD)
            else:
                f = IP.fand(IP.fnot(IP.feq(d)), IP.fnot(IP.feq(addc(d, -1))))
                base.oblige(R, I, st, HEAD, IP.fnot(f), f'{key} {side} start', f'the {side} start in the header is not where the hunk starts')

    def body(self, I, st, texts, shape):
        """walk the body with one cursor per side"""
        R, key = self.R, self.key
        kb, ka, partner = [], [], {}
        for k, nb, na in shape:
            for j in range(nb):
                if k == 'NoChange':
                    partner[len(kb)] = len(ka) + j
                kb.append('=' if k == 'NoChange' else '-')
            ka += ['=' if k == 'NoChange' else '+'] * na
        states = [(st, 0, 0, 0)]
        while states:
            s, j, tb, ta = states.pop()
            if j == len(texts):
                if tb == len(kb) and ta == len(ka):
                    R.ok(BODY)
                else:
                    self.judge(I, s, BODY, f'{key} missing', 'not every line of the hunk is in the body')
                continue
            t = texts[j]
            ps = flat(t) if t is not None else []
            if ps and ps[0][0] == 'elem' and not base.has_u(ps[0]):
                self.judge(I, s, BODY, f'{key} mark', 'a line of the body does not consist of its marker and a line')
                continue
            if not ps or ps[0][0] != 'lit':
                R.undecided(BODY, f'{key}: a line of the body: {ps[:1]}')
                continue
            m = ps[0][1]
            if m[0] not in ' -+' or len(m) != 1:
                if m[0] == '\\':
                    self.judge(I, s, MARK, f'{key} marker', 'the marker for a missing newline stands where none is missing')
                else:
                    self.judge(I, s, BODY, f'{key} mark', 'a line of the body does not consist of its marker and a line')
                continue
            side = 'after' if m == '+' else 'before'
            i = ta if m == '+' else tb
            ks = ka if m == '+' else kb
            if len(ps) < 2 or ps[1][0] != 'elem':
                if len(ps) > 1 and (base.has_u(ps[1]) or s.wid):
                    R.undecided(BODY, f'{key}: text of a line')
                else:
                    self.judge(I, s, BODY, f'{key} text', 'a line of the body does not consist of its marker and a line')
                continue
            want = {' ': '=', '-': '-', '+': '+'}[m]
            if i >= len(ks) or ks[i] != want or (m == ' ' and partner[tb] != ta):
                self.judge(I, s, BODY, f'{key} {dict(zip(" -+", ("unchanged", "removed", "added")))[m]}', 'a line is marked for what it is not, or stands in the wrong place')
                continue
            place = {side: i}
            if m == ' ':
                place['after'] = ta
            got = ps[1]
            okk = False
            for sd, k in place.items():
                q = self.ids[sd]
                w = ('elem', q[0], s.canon(add(q[1], addc(self.first[0 if sd == 'before' else 1], k))))
                if s.term_eq(got, w):
                    okk = True
            if not okk:
                if base.has_u(got):
                    R.undecided(BODY, f'{key}: which line')
                else:
                    self.judge(I, s, BODY, f'{key} which', 'a line of the body is not the line of the input that belongs there')
                continue
            R.ok(BODY)
            tb2, ta2 = tb + (m != '+'), ta + (m != '-')
            # the newline
            f = MO.ends(got, '\n')
            rest = ps[2:]
            for has in (True, False):
                for s2 in s.assume(f, has):
                    if s2.cons.bad:
                        continue
                    nx = j + 1
                    tail = rest
                    if not rest and nx < len(texts) and texts[nx] is not None and flat(texts[nx])[:1] and flat(texts[nx])[0][0] == 'lit' and flat(texts[nx])[0][1][0] == '\\':
                        # the marker as a line of its own needs the newline written before it
                        pass
                    if has:
                        if not tail:
                            R.ok(MARK)
                        elif all(x[0] == 'lit' for x in tail):
                            self.judge(I, s2, MARK, f'{key} after newline', 'something is written after a line that has its newline')
                        else:
                            R.undecided(MARK, f'{key}: end of a line')
                    else:
                        if len(tail) == 1 and tail[0][0] == 'lit' and MARKER.match(tail[0][1]):
                            R.ok(MARK)
                        elif len(tail) == 1 and tail[0] == ('lit', '\n') and nx < len(texts) and texts[nx] is not None and texts[nx][0] == 'lit' and texts[nx][1].startswith('\\'):
                            R.ok(MARK)
                            nx += 1
                        elif not tail and nx < len(texts) and texts[nx] is not None and texts[nx][0] == 'lit' and MARKER.match(texts[nx][1]):
                            R.ok(MARK)
                            nx += 1
                        elif all(x[0] == 'lit' for x in tail):
                            self.judge(I, s2, MARK, f'{key} missing', 'a line that lacks its newline is written as if it had one')
                        else:
                            R.undecided(MARK, f'{key}: end of a line')
                    states.append((s2, nx, tb2, ta2))


def c20(R):
    R.rule('every hunk with few lines (each sequence of kinds of change, each place of its lines in the inputs, each way its inputs can end) is written symbolically and compared with what it covers')
    p = mir.load()
    fs = [f for f in base.fns(p, 'next', CRATE) if (base.selfname(f) or '').endswith('UnifiedClumpIter')]
    for f in fs:
        Emit(R, p, f, 5 if os.environ.get('VERIF_TIER') == 'thorough' else 4).run()
    if not fs:
        R.undecided('anchor', 'UnifiedClumpIter::next')
