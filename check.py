#!/usr/bin/env python3
"""check.py <ID> [--tier quick|thorough] | --replay FILE"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VENV = '/opt/venv/bin/python'
sys.dont_write_bytecode = True
if os.environ.get('VERIF_EXEC') != '1' and os.path.exists(VENV) and os.path.realpath(sys.executable) != os.path.realpath(VENV) \
        or os.environ.get('PYTHONHASHSEED') != '0':
    if os.environ.get('VERIF_EXEC') != '2':
        env = dict(os.environ, VERIF_EXEC='2', PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1')
        py = VENV if os.path.exists(VENV) else sys.executable
        os.execve(py, [py] + sys.argv, env)
sys.path.insert(0, HERE)


def main():
    a = sys.argv[1:]
    from symex import runner
    if a and a[0] == '--concrete':
        runner.concrete_main(a[1], a[2])
        return 0
    if a and a[0] == '--replay':
        return runner.replay(a[1])
    if a and a[0] == '--selftest':
        from symex import core, loader
        import z3
        print('ready')
        return 0
    pid = a[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a:
        tier = a[a.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    return runner.check(pid, tier, seed)


if __name__ == '__main__':
    sys.exit(main())
