#!/opt/venv/bin/python
"""run.py <PROPERTY> [quick|thorough]   decide one property on /repo
run.py replay <file>                 re-execute a recorded counterexample
run.py build                         build what the checks need (cached)"""
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
PY = '/opt/venv/bin/python'
if __name__ == '__main__':
    if os.path.realpath(sys.executable) != os.path.realpath(PY) or \
            sys.prefix != '/opt/venv':
        os.execv(PY, [PY] + sys.argv)
    from vmc import core
    if sys.argv[1] == 'build':
        from vmc import build
        print(build.ensure_extension())
    elif sys.argv[1] == 'replay':
        os.environ.update(core.worker_env())
        sys.path.insert(0, '/repo')
        sys.exit(core.replay_main(sys.argv[2]))
    else:
        tier = sys.argv[2] if len(sys.argv) > 2 else 'quick'
        sys.exit(core.parent_main(sys.argv[1], tier))
