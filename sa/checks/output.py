"""Expected output as a list of pieces, followed by a cursor through every write."""
from .. import interp as IP, lin as LA, models as MO
from ..lin import var, const, add, sub, addc, neg, atom, ZERO
from . import base

POS = ('G', 'opos')


def flatten(c):
    """pieces of a string content"""
    if isinstance(c, tuple) and c and c[0] == 'cat':
        out = []
        for x in c[1:]:
            out += flatten(x)
        return out
    return [c]


class Out:
    """pieces: ('items', term, from, to) or ('lit', text or None for any marker)

    The monitor state is ghost 'piece' (index) and the number POS (next item of that piece)."""

    def __init__(self, R, I, pieces, name, key, what, writer=None):
        self.R, self.I, self.pieces, self.name, self.key, self.what = R, I, pieces, name, key, what
        self.writer = writer
        self.bases = {p[1] for p in pieces if p[0] == 'items'}
        self.errors = 0

    def init(self, st):
        st.ghost['piece'] = 0
        st.mem[POS] = ('int', self.first(0))

    def first(self, k):
        if k >= len(self.pieces):
            return ZERO
        p = self.pieces[k]
        return p[2] if p[0] == 'items' else ZERO

    def event(self, I, st, ev):
        if ev[0] == 'write':
            self.write(st, ev[1], ev[3])
        elif ev[0] == 'fail':
            st.ghost['failed'] = True
        elif ev[0] == 'leak':
            st.ghost['piece'] = '?'               # handed to code the analysis does not know
        elif ev[0] == 'partial':
            self.R.undecided(self.name, self.key + ' partial write')
            st.ghost['piece'] = '?'

    def oblige(self, st, f, why):
        return base.oblige(self.R, self.I, st, self.name, f, f'{self.key} {why}', f'{self.what}: {why}')

    def bad(self, st, why, precise=True):
        if precise and st.wid == 0:
            self.R.violate(self.name, f'{self.key} {why}', f'{self.what}: {why}')
        else:
            self.R.undecided(self.name, f'{self.key}: {why}')

    # ------------------------------------------------------------------
    def span(self, st, v):
        """list of ('items', base, from, n) / ('lit', text) written by one call, or None"""
        I = self.I
        v = I.strip(st, v)
        if v[0] == 'view':
            t = MO.content(I, st, v[1])
            return None if t is None else [('items', t, v[2], sub(v[3], v[2]))]
        if v[0] == 'str':
            out = []
            for c in flatten(v[1]):
                if isinstance(c, tuple) and c and c[0] == 'lit':
                    out.append(('lit', c[1]))
                else:
                    s = self.term_span(st, c)
                    if s is None:
                        return None
                    out.append(s)
            return out
        if v[0] == 'agg' and v[1] is not None and v[1].k == 'array':
            r = []
            for x in v[3]:
                t = MO.content(I, st, x)
                s = self.term_span(st, t) if t is not None else None
                if s is None:
                    return None
                r.append(s)
            return r
        t = MO.content(I, st, v)
        if t is not None:
            s = self.term_span(st, t)
            return None if s is None else [s]
        return None

    def term_span(self, st, t):
        if isinstance(t, tuple) and t and t[0] in ('trim', 'derived') and not base.has_u(t):
            return ('altered', t, None, None)
        if isinstance(t, tuple) and t and t[0] == 'lit':
            return ('lit', t[1])
        if isinstance(t, tuple) and len(t) == 3 and t[0] == 'elem':
            return ('items', t[1], t[2], const(1))
        if isinstance(t, tuple):
            if t in self.bases:
                return ('items', t, ZERO, var(atom(('len', t), 0, LA.MAX)))
            return ('items', t, None, None)
        return None

    def write(self, st, v, w):
        k = st.ghost.get('piece')
        if k == '?':
            return
        if self.writer is not None and not self.writer(st, w):
            return
        sp = self.span(st, v)
        if sp is None:
            self.R.undecided(self.name, f'{self.key}: what is written is not known')
            st.ghost['piece'] = '?'
            return
        for s in sp:
            self.one(st, s)

    def one(self, st, s):
        k = st.ghost.get('piece')
        if k == '?':
            return
        p = st.mem[POS][1]
        if s[0] == 'altered':
            self.bad(st, 'something other than the item itself is written')
            st.ghost['piece'] = '?'
            return
        if s[0] == 'items' and s[3] is not None and st.ent_eq(s[3]):
            return                                  # nothing written
        if s[0] == 'lit' and s[1] == '':
            return
        # the piece it belongs to
        best = None
        for j in range(k, len(self.pieces)):
            q = self.pieces[j]
            if q[0] != s[0]:
                continue
            if q[0] == 'lit':
                if q[1] is None:
                    if j == k and st.ghost.get('ltext', '').endswith('\n'):
                        continue
                    best = j
                    break
                if s[1] == q[1][st.ghost.get('lpos', 0) if j == k else 0:][:len(s[1])]:
                    best = j
                    break
                continue
            if q[1] != s[1] or s[2] is None:
                continue
            d = st.decide(IP.feq(sub(s[2], p if j == k else q[2])))
            if d is True:
                best = j
                break
            if d is None and best is None:
                best = j
        if best is None:
            prec = s[0] == 'lit' or (s[2] is not None and not base.has_u(s[1]) and base.exact(IP.feq(s[2])))
            known = s[0] == 'lit' or s[1] in self.bases
            self.bad(st, 'something is written out of place' if known else 'something else is written', prec)
            st.ghost['piece'] = '?'
            return
        q = self.pieces[best]
        if best != k:
            self.skip(st, k, best)
            p = self.first(best)
            st.ghost['piece'] = best
            st.ghost.pop('lpos', None)
            st.ghost.pop('ltext', None)
        if q[0] == 'lit':
            if q[1] is not None:
                st.ghost['lpos'] = st.ghost.get('lpos', 0) + len(s[1])
            else:
                st.ghost['lpos'] = 1
                st.ghost['ltext'] = (st.ghost.get('ltext', '') + s[1])[-1:]
            st.mem[POS] = ('int', ZERO)
            return
        self.oblige(st, IP.feq(sub(s[2], p)), 'an item is left out, repeated or out of order')
        end = add(s[2], s[3])
        self.oblige(st, IP.fge(sub(q[3], end)), 'an item beyond the part to be written is written')
        st.ge(sub(q[3], end))                     # judged just now
        st.mem[POS] = ('int', end)

    def skip(self, st, k, best):
        """all of piece k must have been written and nothing is due between"""
        for i in range(k, best):
            q = self.pieces[i]
            if q[0] == 'lit':
                n = st.ghost.get('lpos', 0) if i == k else 0
                if n < (len(q[1]) if q[1] is not None else 1):
                    self.bad(st, 'a marker is left out')
                else:
                    self.R.ok(self.name)
                continue
            p = st.mem[POS][1] if i == k else q[2]
            self.oblige(st, IP.feq(sub(q[3], p)), 'an item is left out')

    def done(self, st):
        """success is reported: everything must have been written"""
        k = st.ghost.get('piece')
        if k == '?':
            self.R.undecided(self.name, f'{self.key}: output not followed')
            return
        self.skip(st, k, len(self.pieces))
