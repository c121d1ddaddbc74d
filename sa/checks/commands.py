"""C01 C02 C03 C05 C30: judgments over the ends of the two commands."""
from .. import mir, interp as IP, lin as LA, mains
from ..mains import Mains, show, base_writer
from ..models import content

CHANGE = ('TextChange', 'ByteChange')


def accessor(p, ty, name):
    for f in p.fns.values():
        if f.crate == 'pw_diff_lib' and f.name == name and f.argc == 1 and f.locals[1].k == 'ref' and f.locals[1].r['inner'] is ty and not f.poly:
            return f
    return None


def recorded_path(p, payload, ty, name):
    f = accessor(p, ty, name)
    if f is None:
        return None
    I = IP.Interp(p)
    v = IP.mk_sym(payload, ty)
    r = I.exec_fn(IP.State(), f, [('refv', v)])
    if len(r) == 1:
        return content(I, r[0][0], r[0][1])
    return None


def site(m, g=None):
    return m.entry.path


class Ends:
    """the analysed command together with the recorded paths of each diff kind"""

    def __init__(self, R, crate):
        self.p = p = mir.load()
        self.R = R
        self.m = m = Mains(p, crate)
        self.dty = p.types.get('pw_diff_lib::diff::Diff')
        if m.entry is None:
            R.violate('anchor', crate + '::main', 'the command entry point is gone')
            self.ends = []
            return
        self.ends = m.run()
        R.add_interp(m.I)
        R.notes['ends_of_process'] = len(self.ends)
        R.assume += ['summaries of the standard library, serde_json, temp_file, clap, log in sa/models.py',
                     'library functions that read or write are taken as one step that succeeds completely or returns an error (property C06 checks that)',
                     'unwinding from a panic runs destructors; the process is not killed']
        for k in m.I.unmodelled:
            R.undecided('modelled-calls', k)
        self.paths = {}

    def rec(self, payload, i, name):
        k = (payload, i, name)
        if k not in self.paths:
            ty = self.dty.r['variants'][i]['fields'][0]['ty']
            self.paths[k] = recorded_path(self.p, ('fld', payload, i, 0), ty, name)
        return self.paths[k]

    def variant(self, st):
        ts = [k[1] for k in st.ghost if k[0] == 'D']
        if len(ts) != 1:
            return None, None, None
        for i, v in enumerate(self.dty.r['variants']):
            l = LA.var(LA.atom(('discr', ts[0]), 0, len(self.dty.r['variants']) - 1))
            if st.ent_eq(LA.addc(l, -i)):
                return ts[0], i, v['name']
        return ts[0], None, None

    def reverse(self, st):
        cli = self.p.types.get('pw_patch::Cli')
        if cli is None:
            return None
        for i, f in enumerate(cli.r['variants'][0]['fields']):
            if f['name'] == 'reverse':
                return st.decide(('b', ('fld', ('p', 'args'), 0, i)))
        return None


def muts(st):
    return [k for k in st.ghost if k[0] == 'op' and k[1] != 'lib'] + [k for k in st.ghost if k[0] == 'tried' and k[1] != 'lib']


def is_temp(p):
    return isinstance(p, tuple) and p and p[0] == 'temppath'


def c01(R):
    R.rule('typestate of every path the patch command touches, over all ways its operations can succeed or fail')
    E = Ends(R, 'pw_patch')
    seen_rename = {v: 0 for v in CHANGE}
    for st, status, how in E.ends:
        t, i, vn = E.variant(st)
        g = st.ghost
        if i is None:
            for k in muts(st):
                R.violate('no-effect-before-the-diff-is-known', f'pw_patch::main {k[1]}', f'{k[1]} on {", ".join(show(x) for x in k[2:])} although the kind of diff is not known')
            R.ok('no-effect-before-the-diff-is-known')
            continue
        if vn not in CHANGE:
            continue
        tgt = E.rec(t, i, 'before_path')
        alt = E.rec(t, i, 'after_path')
        for k in muts(st):
            op, ps = k[1], k[2:]
            key = f'pw_patch::main {vn} {op}'
            if op in ('create', 'create_new', 'open_write', 'fs_write', 'set_len', 'set_permissions') and is_temp(ps[0]):
                R.ok('only-the-temporary-file-is-written')
            elif op == 'create_new' and ps[0] not in (tgt, alt):
                R.ok('only-the-temporary-file-is-written')
            elif op == 'remove_file' and (is_temp(ps[0]) or (ps[0] not in (tgt, alt) and ('F', ps[0]) in g)):
                R.ok('only-the-temporary-file-is-written')
            elif op in ('temp_write',):
                R.ok('only-the-temporary-file-is-written')
            elif op == 'rename':
                src, dst = ps
                if dst not in (tgt, alt):
                    R.violate('rename-target', key, f'renames {show(src)} over {show(dst)}, which is not the path recorded in the diff')
                    continue
                if src in (tgt, alt):
                    R.violate('rename-source', key, 'the target itself is renamed')
                    continue
                R.ok('rename-target')
            else:
                R.violate('target-modified-otherwise', key, f'{op} on {", ".join(show(x) for x in ps)} while applying a change diff')
        for k, v in g.items():
            if k[0] != 'R':
                continue
            seen_rename[vn] += 1
            _, src, dst = k
            how_, writes, dirty = v
            key = f'pw_patch::main {vn} rename'
            if how_ not in ('temp', 'create', 'create_new', 'open_write', 'fs_write'):
                R.violate('rename-source', key, f'the renamed file {show(src)} was not created by this run')
                continue
            good = [w for w, ok in writes if ok and w[0] == 'lib']
            if any(not ok for _, ok in writes):
                R.violate('complete-before-rename', key, 'the target is replaced although writing the new content failed')
            elif len(good) != 1 or len(writes) != 1:
                R.violate('complete-before-rename', key, f'the target is replaced after {len(good)} applications of the diff and {len(writes) - len(good)} other writes to the new file (expected exactly one application)')
            elif dirty:
                R.violate('complete-before-rename', key, 'the target is replaced while part of the new content is still in a buffer')
            else:
                w = good[0]
                payload = ('fld', t, i, 0)
                if payload not in w[2]:
                    R.violate('complete-before-rename', key, f'what is written to the new file ({w[1]}) is not this diff applied')
                elif not any(mentions_open(x, dst) for x in w[2]):
                    R.violate('patched-from-target', key, f'the content written over {show(dst)} was not computed from it')
                else:
                    R.ok('complete-before-rename')
        # a successful end of a change diff has replaced the target
        if status == 0:
            if any(k[0] == 'R' for k in g):
                R.ok('success-means-replaced')
            else:
                R.violate('success-means-replaced', f'pw_patch::main {vn}', 'the command ends with status zero without having replaced the target')
    for vn in CHANGE:
        if not seen_rename[vn]:
            R.violate('reachable', f'pw_patch::main {vn}', f'no path applies a {vn} diff to its target')
        else:
            R.ok('reachable')


def mentions_open(t, path):
    """t is the value of a read of the file at path"""
    if not isinstance(t, tuple):
        return False
    if t and t[0] == 'file' and t[1] == 'open' and t[2] and t[2][0] == path:
        return True
    if t and t[0] in ('read', 'read_to_string') and path in t:
        return True
    return any(mentions_open(x, path) for x in t)


def failed_hunks(E, st):
    """'none' if no hunk can have failed, 'some' if one certainly has, else None"""
    sty = E.p.types.get('pw_diff_lib::apply_text::Statistics')
    r = 'none'
    for k in st.ghost:
        if k[0] != 'S':
            continue
        idx = [n for n, f in enumerate(sty.r['variants'][0]['fields']) if f['name'] == 'failed'] if sty else []
        if not idx:
            return 'gone'
        l = LA.var(LA.atom(('fld', k[1], 0, idx[0]), 0, LA.MAX))
        if st.ent_eq(l):
            continue
        if st.ent_ge(LA.addc(l, -1)):
            return 'some'
        r = None
    return r


def c02(R):
    R.rule('for every end of pw_diff and pw_patch: status zero if and only if no attempted operation failed, was lost in a buffer, or was only partly done')
    for crate in ('pw_patch', 'pw_diff'):
        E = Ends(R, crate)
        kinds = set()
        for st, status, how in E.ends:
            g = st.ghost
            bad = g.get('failed') or g.get('swallow')
            lost = [k for k, v in g.items() if k[0] == 'B' and v != 'clean']
            t, i, vn = E.variant(st)
            key = f'{crate}::main {vn or ""}'.strip()
            fh = failed_hunks(E, st)
            if status is None:
                R.undecided('status', f'{key} {how}')
            elif status == 0:
                if g.get('failed'):
                    f = g['failed']
                    R.violate('failure-gives-nonzero', key + ' ' + f, f'an operation failed ({f}) but the command ends with status zero')
                elif g.get('swallow'):
                    R.violate('failure-gives-nonzero', key + ' ' + g['swallow'], f'{g["swallow"]}: the command can end with status zero although not everything was written')
                elif lost:
                    R.violate('failure-gives-nonzero', key + ' unflushed', 'output still in a buffer when the command ends with status zero: a failure to write it is not noticed')
                else:
                    R.ok('failure-gives-nonzero')
                    kinds.add(vn)
            else:
                if bad or fh in ('some',):
                    R.ok('nonzero-only-after-failure')
                elif fh is None:
                    R.undecided('nonzero-only-after-failure', key)
                else:
                    R.violate('nonzero-only-after-failure', key + ' ' + how, f'nothing failed, yet the command ends with a non-zero status ({how})')
        if crate == 'pw_patch':
            for v in E.dty.r['variants']:
                if v['name'] in kinds:
                    R.ok('success-possible')
                else:
                    R.violate('success-possible', f'{crate}::main {v["name"]}', 'no path ends with status zero for this kind of diff')
        elif not kinds:
            R.violate('success-possible', f'{crate}::main', 'no path ends with status zero')
        else:
            R.ok('success-possible')


def c03_main(R):
    R.rule('pw_patch: wherever it ends with status zero the count of failed hunks returned by the text engine is known to be zero')
    E = Ends(R, 'pw_patch')
    n = 0
    for st, status, how in E.ends:
        if not any(k[0] == 'S' for k in st.ghost):
            continue
        n += 1
        t, i, vn = E.variant(st)
        if status == 0 or status is None:
            fh = failed_hunks(E, st)
            if fh == 'none':
                R.ok('zero-status-implies-no-failed-hunk')
            elif status is None:
                R.undecided('zero-status-implies-no-failed-hunk', how)
            else:
                R.violate('zero-status-implies-no-failed-hunk', f'pw_patch::main {vn}', 'the command ends with status zero without having established that no hunk failed')
        else:
            R.ok('failed-hunk-or-error-gives-nonzero')
    if not n:
        R.violate('zero-status-implies-no-failed-hunk', 'pw_patch::main', 'the result of applying a text diff never reaches the end of the command')


def c05(R):
    R.rule('per kind and direction of an add or remove diff: the set of file system effects on every path is exactly the creation (exclusive) or the deletion of the recorded path')
    E = Ends(R, 'pw_patch')
    done = {}
    for st, status, how in E.ends:
        t, i, vn = E.variant(st)
        if i is None or vn in CHANGE:
            continue
        g = st.ghost
        rev = E.reverse(st)
        payload = ('fld', t, i, 0)
        path = E.rec(t, i, 'path')
        ms = muts(st)
        wr = [(k[1], v) for k, v in g.items() if k[0] == 'W' and v]
        if rev is None:
            if ms:
                R.violate('direction', f'pw_patch::main {vn} {ms[0][1]}', f'{ms[0][1]} is done whatever the direction')
            elif status == 0:
                R.violate('direction', f'pw_patch::main {vn}', 'ends with status zero without looking at the direction')
            continue
        create = (vn in ('TextAdd', 'ByteAdd')) != rev
        where = f'pw_patch::main {vn} {"reverse" if rev else "forward"}'
        for k in ms:
            op, ps = k[1], k[2:]
            if create:
                if op == 'create_new' and ps == (path,):
                    R.ok('effects')
                elif op in ('create', 'fs_write', 'open_write') and ps[0] == path:
                    R.violate('no-overwrite', f'{where} {op}', f'{op} on the recorded path would replace an existing file')
                else:
                    R.violate('effects', f'{where} {op}', f'{op} on {", ".join(show(x) for x in ps)}: only the exclusive creation of the recorded path is allowed')
            else:
                if op == 'remove_file' and ps == (path,):
                    R.ok('effects')
                else:
                    R.violate('effects', f'{where} {op}', f'{op} on {", ".join(show(x) for x in ps)}: only the deletion of the recorded path is allowed')
        for p_, ws in wr:
            if not create:
                R.violate('content', where + ' write', f'{show(p_)} is written while deleting')
            elif p_ == path:
                for w, ok in ws:
                    if not (w[0] == 'lib' and payload in w[2] or w[0] == 'direct' and w[1] is not None and within(w[1], payload)):
                        R.violate('content', where + ' write', f'something else than the recorded content is written ({w[0]} {show(w[1])})')
                    else:
                        R.ok('content')
                if len(ws) > 1:
                    R.violate('content', where + ' write', 'the recorded content is written more than once')
        if status == 0:
            if create:
                okc = ('op', 'create_new', path) in g and any(p_ == path and len(ws) == 1 and ws[0][1] for p_, ws in wr)
            else:
                okc = ('op', 'remove_file', path) in g
            if okc:
                done[(vn, rev)] = done.get((vn, rev), 0) + 1
                R.ok('success-means-done')
            elif not g.get('failed'):
                R.violate('success-means-done', where, 'the command ends with status zero without ' + ('creating and writing' if create else 'deleting') + ' the recorded path')
    for vn in ('TextAdd', 'TextRemove', 'ByteAdd', 'ByteRemove'):
        for rev in (False, True):
            if (vn, rev) in done:
                R.ok('reachable')
            else:
                R.violate('reachable', f'pw_patch::main {vn} {"reverse" if rev else "forward"}', 'no path completes this operation')


def within(t, payload):
    while isinstance(t, tuple) and t and t[0] in ('fld', '*'):
        if t == payload:
            return True
        t = t[1]
    return t == payload


def c30(R):
    R.rule('at every end of the patch command (return, process::exit, panic) each temporary file it created has been renamed away, removed, or goes through its destructor')
    E = Ends(R, 'pw_patch')
    n = 0
    for st, status, how in E.ends:
        g = st.ghost
        t, i, vn = E.variant(st)
        tmps = [(k, v) for k, v in g.items() if k[0] == 'T']
        created = [(k[1], v) for k, v in g.items() if k[0] == 'F' and v in ('create', 'create_new', 'fs_write')]
        for k, v in tmps:
            n += 1
            f = 'after ' + ('a failure' if g.get('failed') else 'success')
            if v == 'gone' or (how == 'panic' and v == 'live'):
                R.ok('temporary-file-gone')
            elif v == 'leaked':
                R.violate('temporary-file-gone', f'pw_patch::main {vn} leaked', 'the destructor of a temporary file is suppressed and it is not renamed')
            else:
                R.violate('temporary-file-gone', f'pw_patch::main {vn} {how} {f}', f'{how} while a temporary file is alive: its destructor does not run and the file stays')
        if vn in CHANGE:
            for p_, v in created:
                if is_temp(p_):
                    tt = p_[1]
                    if g.get(('T', tt)) == 'gone' and g.get(('F', p_)) not in ('removed',):
                        # created again after the temporary file had been removed
                        R.violate('temporary-file-gone', f'pw_patch::main {vn} recreated', 'the temporary path is created again after its owner was dropped')
                elif p_ not in (E.rec(t, i, 'before_path'), E.rec(t, i, 'after_path')) and status != 0:
                    R.violate('temporary-file-gone', f'pw_patch::main {vn} {how} created', f'{show(p_)} is created and still exists when the command fails')
    if not n:
        R.undecided('temporary-file-gone', 'no temporary file is created')
