"""python3 -m sa.run <property>"""
import importlib
import os
import sys
import traceback

from .report import Report
from . import mir

CHECKS = {
    'C01': ('commands', ['c01']),
    'C02': ('commands', ['c02']),
    'C03': ('commands', ['c03_main', 'engine.c03_lib']),
    'C04': ('scans', ['c04']),
    'C06': ('errors', ['c06']),
    'C07': ('scans', ['c07']),
    'C05': ('commands', ['c05']),
    'C30': ('commands', ['c30']),
    'C08': ('wire', ['c08']),
    'C18': ('unified', ['c18']),
    'C19': ('unified', ['c19']),
    'C20': ('emit', ['c20']),
    'C21': ('index', ['c21']),
    'C22': ('reads', ['c22']),
    'C23': ('kind', ['c23']),
    'C10': ('differ', ['c10']),
    'C11': ('lcs', ['c11']),
    'C25': ('differ', ['c25']),
    'C12': ('hunks', ['c12']),
    'C13': ('script', ['c13']),
    'C14': ('engine', ['c14', 'clump.c14']),
    'C15': ('engine', ['c15', 'clump.c15']),
    'C16': ('clump', ['c16']),
    'C17': ('engine', ['c17', 'clump.c17']),
    'C24': ('engine', ['c24', 'clump.c24']),
    'C26': ('clump', ['c26']),
    'C09': ('mirror', ['c09']),
    'C28': ('lcs', ['c28']),
    'C29': ('nearest', ['c29', 'engine.c29']),
}


def main(prop):
    R = Report(prop)
    m, fs = CHECKS[prop]
    mod = importlib.import_module('sa.checks.' + m)
    for f in fs:
        mm = mod
        if '.' in f:
            mm, f = f.split('.')
            mm = importlib.import_module('sa.checks.' + mm)
        try:
            getattr(mm, f)(R)
        except mir.BuildError:
            raise
        except Exception as e:
            # a construct the analysis cannot handle: nothing is claimed about the rest
            traceback.print_exc()
            R.undecided('the analysis covers the code', f'{f}: {type(e).__name__}')
    return R.finish()


if __name__ == '__main__':
    if os.environ.get('PYTHONHASHSEED') != '0':
        # sets are walked in the same order every time: the same tree gives the same answer
        os.execve(sys.executable, [sys.executable, '-m', 'sa.run'] + sys.argv[1:], dict(os.environ, PYTHONHASHSEED='0'))
    try:
        sys.exit(main(sys.argv[1]))
    except mir.BuildError as e:
        print('cannot analyse the tree:', e)
        sys.exit(2)
