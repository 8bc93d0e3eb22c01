#!/opt/venv/bin/python
"""check.py <property> [--replay FILE] [--runs N] [--seed N] [--workers N]

Exit 0: the property held on everything explored.  Exit 1: a violation, with
a line "VIOLATION property=<id> replay=<path>".  Exit 2: the check itself
failed (harness error)."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'

if os.environ.get('VERIF_SIM') != '1':
    env = {'PATH': os.environ.get('PATH', '/usr/bin:/bin'),
           'HOME': '/nonexistent', 'LC_ALL': 'C.UTF-8', 'VERIF_SIM': '1',
           'PYTHONHASHSEED': os.environ.get('VERIF_HASHSEED', '0'),
           'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONNOUSERSITE': '1',
           'PYTHONUTF8': '1', 'TZ': 'UTC'}
    for k in os.environ:
        if k.startswith('VERIF_'):
            env[k] = os.environ[k]
    env['VERIF_SIM'] = '1'
    exe = PY if os.path.exists(PY) else sys.executable
    os.execve(exe, [exe, '-W', 'ignore', os.path.join(HERE, 'check.py')]
              + sys.argv[1:], env)

sys.path.insert(0, HERE)
from sim import main  # noqa: E402

sys.exit(main.main(sys.argv[1:]))
