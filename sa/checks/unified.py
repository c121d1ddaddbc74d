"""C18, C19, C20: unified diffs."""
import os
from .. import mir, interp as IP, lin as LA, models as MO, join as JN, regexp as RX
from ..lin import var, const, add, sub, addc, neg, atom, ZERO
from . import base
from .engine import tyname
from .script import lin, changes_of, valid, parts
from .differ import small, short

CRATE = 'pw_cub_diff_lib'
NOPANIC = 'no panic while parsing'
PATTERN = 'every pattern is a valid regular expression'


# ---------------------------------------------------------------------------------------------------- patterns
class Patterns:
    """what is known about a match from the structure of its pattern: which groups can have taken part"""

    def __init__(self, R=None):
        self.R = R
        self.memo = {}
        self.seen = {}

    def read(self, text):
        if text not in self.memo:
            try:
                self.memo[text] = ('ok',) + RX.parse(text)
            except RX.Bad as e:
                self.memo[text] = ('bad', str(e))
            except RX.Unknown as e:
                self.memo[text] = ('unknown', str(e))
        return self.memo[text]

    def of(self, rx):
        """structure of the pattern of a compiled regular expression"""
        while isinstance(rx, tuple) and rx and rx[0] == '*':
            rx = rx[1]
        if isinstance(rx, tuple) and rx[0] == 'regex':
            t = lit_text(rx[1])
            if t is not None and self.read(t)[0] == 'ok':
                return self.read(t)[1:]
        return None

    def hook(self, I, st, c, args, rt):
        path, nm = c.path, c.name
        if path.startswith('lazy_static::lazy::Lazy') and nm == 'get' and len(args) > 1:
            fn = args[1]
            k = ('lazy', repr(fn))
            if k not in self.seen:
                self.seen[k] = None
                rs = I.call_value(st.copy(), fn, [], rt.r['inner'] if rt is not None and rt.k == 'ref' else None)
                if len(rs) == 1:
                    self.seen[k] = rs[0][1]
            v = self.seen[k]
            return None if v is None else [(st, ('refv', v))]
        if path.startswith('regex::') and nm == 'new' and path.endswith('Regex::new'):
            t = lit_text(MO.content(I, st, args[0]))
            r = self.read(t) if t is not None else ('unknown', 'pattern not followed')
            v = IP.mk_sym(('regex', MO.content(I, st, args[0])), rt.r['args'][0])
            if self.R is not None:
                if r[0] == 'ok':
                    self.R.ok(PATTERN)
                elif r[0] == 'unknown':
                    self.R.undecided(PATTERN, r[1])
            if r[0] == 'bad':
                e = ('sym', ('regexerror', r[1]), rt.r['args'][1] if len(rt.r['args']) > 1 else None)
                return [(st, MO.err(rt, e))]
            return [(st, MO.ok(rt, v))]
        if path.startswith('regex::') and nm == 'captures' and len(args) == 2:
            t, rx = MO.content(I, st, args[1]), MO.content(I, st, args[0])
            s = self.of(rx)
            if s is None:
                return None
            cap = ('captures', rx, t)
            out = []
            b = ('b', ('matches', rx, t))
            for x in st.assume(b, True):
                x = x.copy()
                x.ghost[('caps', cap)] = frozenset(RX.parts(s[0]))
                out.append((x, MO.some(rt, IP.mk_sym(cap, rt.r['args'][0]))))
            return out + [(x, MO.none(rt)) for x in st.assume(b, False)]
        if path.startswith('regex::') and 'Captures' in path and nm == 'get' or (nm == 'index' and c.trait == 'core::ops::index::Index' and args and self.caps(I, st, args[0]) is not None):
            cap = self.caps(I, st, args[0])
            n = I.strip(st, args[1])
            n = st.canon(n[1]) if n[0] == 'int' else None
            if cap is None or n is None or n[1] or ('caps', cap) not in st.ghost:
                return None
            n = n[0]
            ps = st.ghost[('caps', cap)]
            yes = frozenset(p for p in ps if n in p) if n else ps
            no = ps - yes
            out = []
            g = ('group', cap, n)
            if yes:
                s = st.copy()
                s.ghost[('caps', cap)] = yes
                if nm == 'get':
                    out.append((s, MO.some(rt, IP.mk_sym(g, rt.r['args'][0]))))
                else:
                    out.append((s, ('refv', ('str', ('text', g)))))
            if no:
                s = st.copy()
                s.ghost[('caps', cap)] = no
                if nm == 'get':
                    out.append((s, MO.none(rt)))
                else:
                    fn, line = I.where_ws()
                    I.panic(s, fn, 'group-index', line, None)
            return out
        return None

    def caps(self, I, st, v):
        t = MO.content(I, st, v)
        while isinstance(t, tuple) and t and t[0] == '*':
            t = t[1]
        return t if isinstance(t, tuple) and t and t[0] == 'captures' else None


def lit_text(t):
    """the text itself if it is a constant"""
    if not isinstance(t, tuple):
        return None
    if t[0] == 'lit':
        return t[1]
    if t[0] in ('fmt', 'cat'):
        xs = t[1] if t[0] == 'fmt' else t[1:]
        out = []
        for x in xs:
            y = lit_text(x)
            if y is None and isinstance(x, tuple) and x[0] == 'display':
                y = None
            if y is None:
                return None
            out.append(y)
        return ''.join(out)
    if t[0] in ('text', 'str') and len(t) == 2:
        return lit_text(t[1])
    return None


# ---------------------------------------------------------------------------------------------------- C18
def parsers(p):
    """the functions that read text: free or associated functions given text or lines"""
    out = []
    for f in p.fns.values():
        if f.crate != CRATE or f.poly or '{closure' in f.key or 'promoted' in f.key or f.key.startswith('<') or not f.argc:
            continue
        if f.path.endswith('::fmt'):
            continue
        t = f.locals[1]
        it = t.r['inner'] if t.k == 'ref' else t
        if it.name in ('str', 'alloc::string::String') or tyname(it) == 'Seq':
            out.append(f)
    return out


def c18(R):
    R.rule('every reachable panic site (slicing, indexing, arithmetic, unwrap, expect) in the functions that read unified diff text is judged for arbitrary text, line index and numbers')
    R.rule('which groups of a match exist follows from the structure of the pattern, read from the program')
    R.assume.append('the regex crate matches as documented; memory does not run out')
    p = mir.load()
    fs = parsers(p)
    for f in fs:
        sites = set()

        def seen(I, st, fn, kind, line, info):
            if I.silent or kind.startswith(('Misaligned', 'Null')) or st.cons.bad:
                return
            w = getattr(fn, 'path', str(fn))
            key = f'{short(f.path)} {w} {kind}'
            sites.add(key)
            if st.wid == 0 and (info is None or base.exact(info[0])) and not I.unmodelled:
                R.violate(NOPANIC, key, f'reading text can panic: {kind} in {w}')
            elif kind == 'overflow:Add' and info is not None and len(info) > 2 and info[2] is not None and info[2].k == 'int' and info[2].r['bits'] <= 16 and not I.unmodelled:
                # a counter of lines in a type that a long text overflows
                R.violate(NOPANIC, key, f'a narrow counter can overflow in {w}')
            else:
                R.undecided(NOPANIC, f'{key} line {line}')
        I = IP.Interp(p)
        I.peel = 2
        I.cap = 100
        pats = Patterns(R)

        def hook(I, st, c, args, rt):
            if c.name in ('with_capacity', 'reserve', 'reserve_exact') and args and ('Vec' in c.path or 'String' in c.path):
                # asking for more room than there can be
                n = lin(I, st, args[-1])
                if n is not None:
                    bad = [s for s in st.assume(IP.fge(addc(neg(n), 2 ** 63 - 1)), False) if not s.cons.bad]
                    for s in bad:
                        fn, line = I.where_ws()
                        I.panic(s, fn, 'capacity', line, (IP.fge(addc(neg(n), 2 ** 63 - 1)), True))
                return None
            return pats.hook(I, st, c, args, rt)
        I.prehook = hook
        I.on_panic = seen
        st = IP.State()
        args = [base.arg(I, st, f.locals[i], f'a{i}') for i in range(1, f.argc + 1)]
        try:
            rs = I.exec_fn(st, f, args)
        except IP.Stop:
            R.undecided(NOPANIC, f'{short(f.path)}: analysis budget')
            rs = []
        for _ in rs:
            R.ok('reading ends with a value or an error')
        if not sites:
            R.ok(NOPANIC)
        R.add_interp(I)
    names = {f.name for f in fs}
    for want in ('get_from_at', 'starts_and_lengths', 'before_path_and_time_stamp', 'after_path_and_time_stamp'):
        if want not in names:
            R.undecided('anchor', want)


# ---------------------------------------------------------------------------------------------------- C19
SIDES = 'each side holds exactly the lines marked for it, without their marker'
MARK = 'every line taken into a hunk has a marker a hunk line may have'
SUM = 'the lines of a parsed hunk add up to its header'
HEAD = 'the header numbers are those the text gives'
CTX = 'context lengths are the unchanged lines at both ends'
TOOK = 'the lines consumed are the header and the lines read'
TAIL = 'a final "no newline" line is heeded'


class Hunk:
    """the hunk read from arbitrary lines: every result is compared with the lines it was read from"""

    def __init__(self, R, p, f, few):
        self.R, self.p, self.f, self.few = R, p, f, few
        self.key = 'get_from_at'

    def run(self):
        R, f = self.R, self.f
        I = IP.Interp(self.p)
        I.peel = self.few + 2
        I.cap = 20000
        I.max_steps = 3000000
        pats = Patterns(None)
        self.pats = pats
        I.prehook = pats.hook
        st = IP.State()
        lt = next((i for i in range(1, f.argc + 1) if tyname(f.locals[i].r['inner'] if f.locals[i].k == 'ref' else f.locals[i]) == 'Seq'), None)
        it = next((i for i in range(1, f.argc + 1) if f.locals[i].k == 'int'), None)
        if lt is None or it is None or f.argc != 2:
            R.undecided('anchor', 'arguments of get_from_at')
            return
        args = [base.arg(I, st, f.locals[i], f'a{i}') for i in (1, 2)]
        q = I.strip(st, I.field(st, I.strip(st, args[lt - 1]), 0, 0))
        L = I.seqlen(st, q)
        sid = I.seqid(q)
        if L is None or sid is None:
            R.undecided('anchor', 'lines')
            return
        self.lines, self.off, self.len = sid[0], sid[1], L
        self.start = lin(I, st, args[it - 1])
        small(st, L)
        small(st, self.start)
        st.ge(addc(sub(add(self.start, const(self.few + 1)), L), 0))
        try:
            rs = I.exec_fn(st, f, args)
        except IP.Stop:
            R.undecided(SIDES, f'{self.key}: analysis budget')
            rs = []
        n = 0
        for s, v in rs:
            for s1, r in MO.variant_split(I, s, I.strip(s, v)):
                if r[2] != 0:
                    continue
                for s2, o in MO.variant_split(I, s1, I.strip(s1, r[3][0])):
                    if o[2] == 1:
                        n += 1
                        self.result(I, s2, I.strip(s2, o[3][0]))
        if not n:
            R.undecided('anchor', 'no hunk is ever read')
        R.add_interp(I)

    def line(self, st, k):
        return ('elem', self.lines, st.canon(add(self.off, addc(self.start, k))))

    def result(self, I, st, h):
        R, key = self.R, self.key
        if h[0] != 'agg':
            R.undecided(SIDES, f'{key}: result not followed')
            return
        fs = {x['name']: i for i, x in enumerate(h[1].r['variants'][0]['fields'])}
        if not {'starts_and_lengths', 'before_lines', 'after_lines', 'context_lengths', 'lines_consumed'} <= set(fs):
            R.undecided('anchor', 'fields of a parsed hunk')
            return
        F = lambda n: I.strip(st, h[3][fs[n]])
        took = lin(I, st, F('lines_consumed'))
        took = st.canon(took) if took is not None else None
        if took is None or took[1] or st.wid:
            R.undecided(TOOK, f'{key}: number of lines consumed')
            return
        self.walk(I, st, F, took[0] - 1, 1, [], [], [])

    def walk(self, I, st, F, n, k, before, after, marks):
        """the consumed lines, one by one, for each marker they can have"""
        R, key = self.R, self.key
        if k > n:
            self.compare(I, st, F, n, before, after, marks)
            return
        t = self.line(st, k)
        fc = MO.first_char(t)
        rest = ('sub', t, const(1))
        other = st
        if st.decide(IP.fge(addc(sub(self.len, self.start), -1 - k))) is not True:
            base.oblige(R, I, st, TOOK, IP.fge(addc(sub(self.len, self.start), -1 - k)), f'{key} beyond', 'more lines are consumed than there are')
            return
        rem = [st]
        for ch in '-+ \\':
            nxt = []
            for s in rem:
                f = IP.feq(addc(fc, -ord(ch)))
                for s1 in s.assume(f, True):
                    if s1.cons.bad:
                        continue
                    b, a = list(before), list(after)
                    ok = True
                    if ch in '- ':
                        b.append(rest)
                    if ch in '+ ':
                        a.append(rest)
                    if ch == '\\':
                        last = next((m for m in reversed(marks) if m != '\\'), None)
                        for side, x in (('- ', b), ('+ ', a)):
                            if last is not None and last in side:
                                x[-1] = ('chop', x[-1], '\n')
                        if last is None:
                            ok = False
                    if ok:
                        self.walk(I, s1, F, n, k + 1, b, a, marks + [ch])
                    else:
                        R.violate(MARK, f'{key} marker first', 'a hunk starts with a "no newline" line')
                nxt += [s1 for s1 in s.assume(f, False) if not s1.cons.bad]
            rem = nxt
        for s in rem:
            if I.unmodelled:
                R.undecided(MARK, f'{key}: marker not followed')
            else:
                R.violate(MARK, f'{key} marker', 'a line with another marker is taken into a hunk')
        if not rem:
            R.ok(MARK)

    def same(self, I, st, have, want):
        """is the stored line the expected one? True, False or None"""
        if have is None:
            return None
        if st.term_eq(have, want):
            return True
        if want[0] == 'chop':
            if have[0] == 'chop1' and st.decide(MO.ends(want[1], '\n')) is True:
                return self.same(I, st, have[1], want[1])
            if have[0] == 'chop' and have[2] == want[2]:
                return self.same(I, st, have[1], want[1])
            if have[0] == 'trim' and have[1] in ('trim_end', 'trim_end_matches') and have[2] in ('\n', None):
                # takes every newline at the end, not just one: the same on a single line, which a diff line is
                return False if have[2] is None else None
            r = self.same(I, st, have, want[1])
            if r is True:
                return False
            return None
        if base.has_u(have):
            return None
        if have[0] in ('sub', 'elem', 'chop', 'chop1', 'lit', 'cat', 'trim', 'subr'):
            return False
        return None

    def compare(self, I, st, F, n, before, after, marks):
        R, key = self.R, self.key
        for name, want in (('before_lines', before), ('after_lines', after)):
            q = F(name)
            if q[0] == 'box':
                q = I.strip(st, q[1])
            ln = I.seqlen(st, q)
            if ln is None:
                R.undecided(SIDES, f'{key} {name}')
                continue
            base.oblige(R, I, st, SIDES, IP.feq(addc(ln, -len(want))), f'{key} {name} count', 'a line is missing on one side, or there is one too many')
            if st.decide(IP.feq(addc(ln, -len(want)))) is not True:
                continue
            for i, w in enumerate(want):
                t = MO.content(I, st, I.elem(st, q, const(i)))
                r = self.same(I, st, t, w)
                if r is False and I.unmodelled:
                    r = None
                R.check(SIDES, r, f'{key} {name} line', 'a line of the hunk is not the line of the diff without its marker')
        sal = F('starts_and_lengths')
        nums = {}
        for side in ('before', 'after'):
            for what in ('start', 'length'):
                nums[side, what] = self.number(I, st, sal, side, what)
        for side, want in (('before', before), ('after', after)):
            x = nums[side, 'length']
            if x is None:
                R.undecided(SUM, f'{key} {side}')
            else:
                base.oblige(R, I, st, SUM, IP.feq(addc(x, -len(want))), f'{key} {side}', f'the {side} lines of a hunk do not add up to its header')
            if x is not None:
                self.header(I, st, side, 'length', x)
            if nums[side, 'start'] is not None:
                self.header(I, st, side, 'start', nums[side, 'start'])
        # context
        body = [m for m in marks if m != '\\']
        if any(m != ' ' for m in body):
            lead = next(i for i, m in enumerate(body) if m != ' ')
            trail = next(i for i, m in enumerate(reversed(body)) if m != ' ')
            c = F('context_lengths')
            for i, (w, name) in enumerate(((lead, 'leading'), (trail, 'trailing'))):
                x = lin(I, st, I.field(st, c, i, 0))
                if x is None:
                    R.undecided(CTX, f'{key} {name}')
                else:
                    base.oblige(R, I, st, CTX, IP.feq(addc(x, -w)), f'{key} {name}', f'the {name} context is not what the hunk has')
        R.ok(TOOK)
        # what comes next is not a "no newline" line
        t = self.line(st, n + 1)
        f = IP.fand(IP.fge(addc(sub(self.len, self.start), -2 - n)), IP.feq(addc(MO.first_char(t), -ord('\\'))))
        if marks and marks[-1] != '\\':
            base.oblige(R, I, st, TAIL, IP.fnot(f), f'{key}', 'a "no newline" line at the end of a hunk is not taken into account')

    def number(self, I, st, sal, side, what):
        for path in ((side, what),):
            v = sal
            for n in path:
                v = I.strip(st, v)
                ty = v[1] if v[0] == 'agg' else v[2]
                i = next((i for i, x in enumerate(ty.r['variants'][0]['fields']) if x['name'] == n), None) if ty is not None and ty.k == 'adt' else None
                if i is None:
                    return None
                v = I.field(st, v, i, 0)
            return lin(I, st, v)

    def header(self, I, st, side, what, x):
        """the number is the one written at that place of the header line"""
        R, key = self.R, self.key
        name = f'{key} {side} {what}'
        x = st.canon(x)
        caps = [k[1] for k in st.ghost if isinstance(k, tuple) and k[0] == 'caps' and st.term_eq(k[1][2], self.line(st, 0))]
        for cap in caps:
            s = self.pats.of(cap[1])
            if s is None:
                continue
            tree, n = s
            own = [g for g in range(1, n + 1) if (RX.before(tree, g) or ('',))[0].endswith('-' if side == 'before' else '+')]
            if len(own) != 1:
                R.undecided(HEAD, f'{name}: pattern')
                return
            g = own[0]
            if what == 'length':
                nxt = [k for k in range(g + 1, n + 1) if (RX.before(tree, k) or ('',))[0].endswith(',')]
                if not nxt:
                    R.undecided(HEAD, f'{name}: pattern')
                    return
                g = nxt[0]
            c = RX.before(tree, g)[2]
            if not (c[0] == 'cat' and len(c[1]) == 1 and c[1][0][:3] == ('rep', 1, None) and c[1][0][3] in (('class', 'd'), ('class', '0-9'))):
                R.undecided(HEAD, f'{name}: not a whole number')
                return
            there = [g in ps for ps in st.ghost['caps', cap]]
            if all(there):
                want = ('parsed', ('text', ('group', cap, g)))
                have = LA.term_of(x[1][0][0]) if x[0] == 0 and len(x[1]) == 1 and x[1][0][1] == 1 else None
                if have is not None and st.term_eq(have, want):
                    R.ok(HEAD)
                elif I.unmodelled or (have is not None and base.has_u(have)):
                    R.undecided(HEAD, name)
                else:
                    # the number may be known to be a constant here
                    w = var(atom(want, 0, 2 ** 64 - 1))
                    base.oblige(R, I, st, HEAD, IP.feq(sub(x, w)), name, 'the number kept is not the one in the header')
            elif not any(there):
                base.oblige(R, I, st, HEAD, IP.feq(addc(x, -1)), f'{name} missing', 'a length that is not written is not taken as one')
            elif I.unmodelled:
                R.undecided(HEAD, f'{name}: the group is not looked at')
            else:
                R.violate(HEAD, f'{name} ignored', 'a number in the header is not looked at')
            return
        R.undecided(HEAD, f'{name}: header line')


def c19(R):
    R.rule('every hunk read is compared, line by line and number by number, with the lines it was read from, for all texts whose hunk has up to a bounded number of lines')
    R.rule('the numbers of a header are those of the groups of the pattern that stand behind the signs and commas')
    p = mir.load()
    fs = [f for f in p.fns.values() if f.crate == CRATE and f.name == 'get_from_at' and not f.poly and '{closure' not in f.key]
    for f in fs:
        Hunk(R, p, f, 6 if os.environ.get('VERIF_TIER') == 'thorough' else 5).run()
    if not fs:
        R.undecided('anchor', 'get_from_at')
