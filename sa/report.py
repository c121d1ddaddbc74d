"""Obligation bookkeeping, evidence files, verdicts."""
import json
import os
import sys
import time

from . import mir

VERIF = mir.VERIF


class Report:
    def __init__(self, prop):
        self.prop = prop
        self.t0 = time.time()
        self.obl = {}            # name -> [proved, violated, undecided]
        self.viol = {}           # key -> message
        self.und = {}            # name -> set of details
        self.functions = set()
        self.sites = 0
        self.paths = 0
        self.rules = []
        self.assume = []
        self.notes = {}
        self.samples = []
        self.visited = {}
        self.program = None

    def rule(self, text):
        if text not in self.rules:
            self.rules.append(text)

    def ok(self, name, n=1):
        self.obl.setdefault(name, [0, 0, 0])[0] += n

    def undecided(self, name, detail=''):
        self.obl.setdefault(name, [0, 0, 0])[2] += 1
        self.und.setdefault(name, set()).add(str(detail)[:300])

    def violate(self, name, key, msg):
        """key: stable identification of the failing construct (no line numbers)"""
        self.obl.setdefault(name, [0, 0, 0])[1] += 1
        self.viol.setdefault(f'{name}@{key}', msg)

    def check(self, name, verdict, key, msg):
        """verdict True / False / None"""
        if verdict is True:
            self.ok(name)
        elif verdict is False:
            self.violate(name, key, msg)
        else:
            self.undecided(name, f'{key}: {msg}')

    def add_interp(self, I):
        for k in I.analysed:
            f = I.p.fns.get(k)
            if f is not None and f.crate.startswith('pw_'):
                self.functions.add(f.path)
        for k, b in I.visited.items():
            self.visited.setdefault(k, set()).update(b)
        self.program = I.p
        self.sites += I.calls_seen
        self.paths += len(I.terminals)
        u = self.notes.setdefault('unmodelled_calls', {})
        for k, n in I.unmodelled.items():
            u[k] = u.get(k, 0) + n
        l = self.notes.setdefault('loops', {'stable': 0, 'unstable': 0})
        for k in l:
            l[k] += I.loops[k]

    def unreached(self):
        """blocks of analysed functions that no state reached (other than panics): where the analysis is vacuous"""
        out = []
        for k, seen in sorted(self.visited.items()):
            f = self.program.fns.get(k)
            if f is None or not f.crate.startswith('pw_'):
                continue
            for i, b in enumerate(f.blocks):
                if b is None or i in seen or b[1][0] in ('unreachable', 'unwind'):
                    continue
                if b[1][0] == 'call' and b[1][4] is None:
                    continue
                if panics_only(f, i):
                    continue
                out.append((f.path, i, b[1][-1]))
        return out

    def finish(self):
        tier = os.environ.get('VERIF_TIER', 'quick')
        seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        known = load_known(self.prop)
        new = {k: m for k, m in self.viol.items() if k not in known}
        old = {k: m for k, m in self.viol.items() if k in known}
        tot = sum(sum(v) for v in self.obl.values())
        proved = sum(v[0] for v in self.obl.values())
        und = sum(v[2] for v in self.obl.values())
        if tot == 0 and not self.viol:
            self.violate('coverage', 'nothing', 'no obligation was generated: the analysed construct is gone')
            new = dict(self.viol)
            tot = 1
        cov = {
            'explanation': 'Static analysis of the compiled program representation (MIR). Rules: ' + ' | '.join(self.rules),
            'obligations': tot,
            'discharged': proved,
            'undecided': und,
            'violated': sum(v[1] for v in self.obl.values()),
            'by_obligation': {k: {'proved': v[0], 'violated': v[1], 'undecided': v[2]} for k, v in sorted(self.obl.items())},
            'undecided_details': {k: sorted(v)[:6] for k, v in sorted(self.und.items())},
            'functions_analysed': len(self.functions),
            'functions': sorted(self.functions)[:80],
            'call_sites_evaluated': self.sites,
            'paths_to_exit': self.paths,
            'samples': self.samples[:12],
        }
        cov.update(self.notes)
        if self.program is not None:
            u = self.unreached()
            cov['blocks_not_reached'] = {'count': len(u), 'first': [f'{p} line {l}' for p, _, l in u[:20]]}
        ev = {'property': self.prop, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': cov,
              'assumptions': self.assume, 'wall_s': round(time.time() - self.t0, 2), 'violations': len(new)}
        d = os.path.join(VERIF, 'evidence')
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        for k in sorted(old):
            print(f'KNOWN-FINDING: property={self.prop} {k}')
        rp = os.path.join(d, self.prop + '.violations.txt')
        if os.path.exists(rp):
            os.remove(rp)
        if new:
            with open(rp, 'w') as f:
                for k, m in sorted(new.items()):
                    f.write(f'{k}\n    {m}\n')
            for k, m in sorted(new.items()):
                print(f'  {k}: {m}')
            print(f'VIOLATION property={self.prop} replay={rp}')
            return 1
        print(f'{self.prop}: {proved} of {tot} obligations proved, {und} undecided, {len(self.functions)} functions, {ev["wall_s"]} s')
        return 0


def panics_only(f, i):
    seen, todo = set(), [i]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        b = f.blocks[x]
        if b is None:
            continue
        t = b[1]
        if t[0] == 'return':
            return False
        if t[0] == 'goto':
            todo.append(t[1])
        elif t[0] == 'switch':
            todo += [y for _, y in t[2]] + [t[3]]
        elif t[0] == 'assert':
            todo.append(t[5])
        elif t[0] == 'drop':
            todo.append(t[2])
        elif t[0] == 'call' and t[4] is not None:
            todo.append(t[4])
    return True


def load_known(prop):
    out = set()
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.rstrip('\n')
            if l.startswith('known: '):
                a = l[len('known: '):].split(' ', 1)
                if a[0] == 'property=' + prop:
                    out.add(a[1].split('  #')[0].strip())
    return out
