#!/usr/bin/env python3
"""mkbug.py SPEC.py: create and confirm planted bugs in /verif/seeded from SPEC (BUGS = [dict(id, property, edits, demo, files, needs, breaks)]).

Each bug is applied to a scratch copy of /repo, must build, pass the stable tests, and its demo must pass
without and fail with the change."""
import json, os, runpy, shutil, subprocess, sys
REPO = '/repo'
WT = '/tmp/bugwt'
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'seeded')


def sh(cmd, cwd=WT, env=None):
    r = subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
    return r.returncode, r.stdout


def prepare():
    if os.path.exists(WT):
        shutil.rmtree(WT)
    subprocess.run(['cp', '-a', REPO, WT], check=True)


ENV = (f'export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_INCREMENTAL=1 '
       f'CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TARGET_DIR={WT}/target; rm -rf {WT}/target/debug/.fingerprint/pw_*; ')
BUILD = ENV + 'cargo build --workspace --offline 2>&1 && cargo test --workspace --no-run --offline 2>&1'
TEST = ENV + 'cargo test --workspace --no-fail-fast --offline -- --test-threads 8 2>&1'


def stable():
    b = json.load(open('/opt/vp/BASELINE.json'))
    return b


def main():
    spec = runpy.run_path(sys.argv[1])
    only = set(sys.argv[2:])
    prepare()
    for b in spec['BUGS']:
        if only and b['id'] not in only:
            continue
        sh('git checkout -q -- .')
        d = os.path.join(OUT, b['id'])
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, 'demo.sh'), 'w').write(b['demo'])
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        for fn, text in b.get('files', {}).items():
            open(os.path.join(d, fn), 'w').write(text)
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        res = []
        rc, o = sh(BUILD)
        rc, o = sh('bash ' + os.path.join(d, 'demo.sh'))
        res.append(('clean demo', rc == 0))
        if rc: print(o[-1500:])
        bad = False
        for f, old, new in b['edits']:
            p = os.path.join(WT, f)
            s = open(p).read()
            if s.count(old) < 1:
                print(b['id'], '!! not found:', old[:80]); bad = True; break
            s = s.replace(old, new, 1)
            open(p, 'w').write(s)
        if bad:
            shutil.rmtree(d); continue
        rc, o = sh('git diff')
        open(os.path.join(d, 'patch.diff'), 'w').write(o)
        rc, o = sh(BUILD)
        res.append(('builds', rc == 0))
        if rc: print(o[-1500:])
        rc, o = sh(TEST)
        res.append(('tests', rc == 0))
        if rc: print(o[-1500:])
        rc, o = sh('bash ' + os.path.join(d, 'demo.sh'))
        res.append(('demo fails', rc != 0))
        good = all(x for _, x in res)
        print(b['id'], b['property'], 'OK' if good else 'BAD ' + str(res))
        if not good:
            print(o[-1500:])
            shutil.rmtree(d)
    shutil.rmtree(WT)


main()
