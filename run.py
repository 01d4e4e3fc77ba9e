#!/usr/bin/env python3
"""run.py <property id> [--tier quick|thorough] [--seed N] [--only scenario,..] [--replay file]"""
import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'
ENV = {
    'MPLBACKEND': 'Agg', 'OPENBLAS_NUM_THREADS': '1', 'OMP_NUM_THREADS': '1', 'MKL_NUM_THREADS': '1',
    'PYTHONHASHSEED': '0', 'PYTHONDONTWRITEBYTECODE': '1',
    # never read cached bytecode: always compile from the current working tree
    'PYTHONPYCACHEPREFIX': '/nonexistent-verif-pycache',
}


def boot():
    if os.environ.get('VERIF_BOOT') == '1':
        return
    env = dict(os.environ)
    env.update(ENV)
    env.setdefault('HOME', '/root')
    env['VERIF_BOOT'] = '1'
    py = PY if os.path.exists(PY) else sys.executable
    os.execve(py, [py, '-B', os.path.abspath(__file__)] + sys.argv[1:], env)


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    sys.path.insert(0, HERE)
    import shutil
    import tempfile
    scratch = tempfile.mkdtemp(prefix='verif-')
    os.environ['MPLCONFIGDIR'] = scratch
    if os.path.isdir('/opt/venv/mplconfig'):        # the font list takes seconds to rebuild
        shutil.copytree('/opt/venv/mplconfig', scratch, dirs_exist_ok=True)
    try:
        from vlib import core
        core.start_coverage()
        core.import_target()
        mod = importlib.import_module('checks.' + sys.argv[1].lower())
        return core.main(mod.check, sys.argv[2:])
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == '__main__':
    boot()
    sys.exit(main())
