"""Structure of a regular expression (the syntax of the regex crate): validity, groups, which groups can take part in a match together."""


class Bad(Exception):
    """certainly not a valid pattern"""


class Unknown(Exception):
    """a construct this reader does not know"""


class Parser:
    def __init__(self, s):
        self.s, self.i, self.n = s, 0, 0

    def peek(self):
        return self.s[self.i] if self.i < len(self.s) else None

    def alt(self):
        xs = [self.concat()]
        while self.peek() == '|':
            self.i += 1
            xs.append(self.concat())
        return xs[0] if len(xs) == 1 else ('alt', xs)

    def concat(self):
        xs = []
        while self.peek() not in (None, '|', ')'):
            xs.append(self.repeat())
        return ('cat', xs)

    def repeat(self):
        a = self.atom()
        while True:
            c = self.peek()
            if c == '*':
                lo, hi = 0, None
                self.i += 1
            elif c == '+':
                lo, hi = 1, None
                self.i += 1
            elif c == '?':
                lo, hi = 0, 1
                self.i += 1
            elif c == '{':
                j = self.s.find('}', self.i)
                if j < 0:
                    raise Bad('unclosed counted repetition')
                b = self.s[self.i + 1:j].replace(' ', '')
                ps = b.split(',')
                if len(ps) > 2 or not ps[0].isdigit() or (len(ps) == 2 and ps[1] and not ps[1].isdigit()):
                    raise Bad('counted repetition')
                lo = int(ps[0])
                hi = lo if len(ps) == 1 else (int(ps[1]) if ps[1] else None)
                if hi is not None and hi < lo:
                    raise Bad('repetition range')
                self.i = j + 1
            else:
                return a
            if self.peek() == '?':
                self.i += 1
            a = ('rep', lo, hi, a)

    def atom(self):
        c = self.peek()
        self.i += 1
        if c == '(':
            if self.peek() == '?':
                m = self.s[self.i + 1:self.i + 2]
                if m == ':':
                    self.i += 2
                    a = self.alt()
                    self.close()
                    return a
                if m in ('=', '!') or self.s[self.i + 1:self.i + 3] in ('<=', '<!'):
                    raise Bad('look-around is not supported')
                if m in ('P', '<'):
                    j = self.s.find('>', self.i)
                    if j < 0:
                        raise Bad('group name')
                    self.i = j + 1
                else:
                    raise Unknown('flags')
            self.n += 1
            k = self.n
            a = self.alt()
            self.close()
            return ('group', k, a)
        if c in '*+?':
            raise Bad('repetition without expression')
        if c == '{':
            raise Bad('repetition without expression')
        if c == '[':
            return self.cls()
        if c == '\\':
            d = self.peek()
            if d is None:
                raise Bad('trailing backslash')
            self.i += 1
            if d.isdigit():
                raise Bad('back-references are not supported')
            if d in 'dDsSwW':
                return ('class', d)
            if d in 'bBAz':
                return ('anchor', d)
            if d in 'ntrfva':
                return ('lit', {'n': '\n', 't': '\t', 'r': '\r', 'f': '\f', 'v': '\v', 'a': '\a'}[d])
            if d in 'pPxuU':
                raise Unknown('escape')
            if d.isalpha():
                raise Bad('unrecognised escape')
            return ('lit', d)
        if c == '.':
            return ('class', '.')
        if c in '^$':
            return ('anchor', c)
        return ('lit', c)

    def close(self):
        if self.peek() != ')':
            raise Bad('unclosed group')
        self.i += 1

    def cls(self):
        j, k, first = self.i, self.i, True
        if self.peek() == '^':
            k += 1
        while True:
            if k >= len(self.s):
                raise Bad('unclosed class')
            c = self.s[k]
            if c == ']' and not first:
                break
            if c == '[':
                raise Unknown('nested class')
            if c == '\\':
                k += 1
            first = False
            k += 1
        self.i = k + 1
        return ('class', self.s[j:k])


def parse(s):
    """(structure, number of groups); raises Bad or Unknown"""
    p = Parser(s)
    a = p.alt()
    if p.peek() == ')':
        raise Bad('unopened group')
    return a, p.n


def parts(a):
    """the sets of groups that can have taken part when the expression matched"""
    k = a[0]
    if k == 'cat':
        out = {frozenset()}
        for x in a[1]:
            q = parts(x)
            if q != {frozenset()}:
                out = {u | v for u in out for v in q}
        return out
    if k == 'alt':
        return set().union(*(parts(x) for x in a[1]))
    if k == 'group':
        return {u | {a[1]} for u in parts(a[2])}
    if k == 'rep':
        q = parts(a[3])
        out = set(q)
        if a[2] is None or a[2] > 1:
            while True:
                n = out | {u | v for u in out for v in q}
                if n == out:
                    break
                out = n
        if a[1] == 0:
            out.add(frozenset())
        if a[2] == 0:
            out = {frozenset()}
        return out
    return {frozenset()}


def before(a, g, ctx=''):
    """the literal text directly in front of group g, None if there is none; (text, inside something optional)"""
    def go(a, lit, opt):
        k = a[0]
        if k == 'lit':
            return None, lit + a[1]
        if k == 'class' or k == 'anchor':
            return None, ''
        if k == 'cat':
            for x in a[1]:
                r, lit = go(x, lit, opt)
                if r is not None:
                    return r, lit
            return None, lit
        if k == 'alt':
            for x in a[1]:
                r, _ = go(x, lit, opt)
                if r is not None:
                    return r, ''
            return None, ''
        if k == 'group':
            if a[1] == g:
                return (lit, opt, a[2]), lit
            r, l2 = go(a[2], lit, opt)
            return r, l2
        if k == 'rep':
            r, _ = go(a[3], lit if a[1] or a[2] == 1 else '', opt or a[1] == 0)
            return r, ''
        return None, ''
    return go(a, '', False)[0]
