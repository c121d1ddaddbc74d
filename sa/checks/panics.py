"""C26: no panic site is reachable while a diff of this differ is applied."""
from . import base


class Panics:
    """judges every panic the analysis reaches"""

    def __init__(self, R, what):
        self.R, self.what = R, what

    def attach(self, I):
        I.on_panic = self.seen

    def seen(self, I, st, fn, kind, line, info):
        if I.silent:
            return
        f = getattr(fn, 'path', str(fn))
        key = f'{f} {self.what} {kind}'
        msg = f'applying a diff can panic: {kind} in {f}'
        if st.cons.bad:
            return
        if st.wid == 0 and (info is None or base.exact(info[0])):
            self.R.violate('no panic', key, msg)
        else:
            self.R.undecided('no panic', f'{key} line {line}')
