"""Process set-up shared by the workers: import paths, limits, the code under test."""

import os
import sys

REPO = os.environ.get('PBT_REPO') or '/repo'  # another tree only while developing the checks
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYTHON = '/opt/venv/bin/python'

# Variables which change what the tool prints or how the interpreter behaves.
CLEAN = (
    'ESP_IDF_SIZE_FORCE_TERMINAL', 'FORCE_COLOR', 'NO_COLOR', 'TTY_COMPATIBLE', 'TTY_INTERACTIVE',
    'COLUMNS', 'LINES', 'ESP_IDF_SIZE_NG', 'PYTHONPATH', 'PYTHONSTARTUP', 'ESPPORT', 'PYTHONWARNINGS',
)  # fmt: skip


def child_env(hash_seed='0', scratch=None):
    env = {k: v for k, v in os.environ.items() if k not in CLEAN}
    env.update(
        PYTHONHASHSEED=str(hash_seed),
        PYTHONDONTWRITEBYTECODE='1',
        PYTHONUTF8='1',
        TERM='dumb',
        LC_ALL='C.UTF-8',
    )
    if scratch:
        env['PYTHONPYCACHEPREFIX'] = os.path.join(scratch, 'pyc')
        env['TMPDIR'] = scratch
    return env


def setup():
    """Make /repo's working tree importable in this process."""
    sys.dont_write_bytecode = True
    for name in CLEAN:
        os.environ.pop(name, None)
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import esp_idf_size

    where = os.path.realpath(esp_idf_size.__file__)
    if not where.startswith(REPO + '/'):
        raise RuntimeError(f'esp_idf_size imported from {where}, not from {REPO}')
