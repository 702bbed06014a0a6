"""Process setup shared by every check: environment, sys.path, determinism.

Import this first.  It makes ``import mushroom_rl`` resolve to /repo's current
working tree (pure Python, nothing to build) and ``import hypothesis`` to the
copy committed under /verif/vendor.
"""
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')

ENV = dict(MPLBACKEND='agg', SDL_VIDEODRIVER='dummy', SDL_AUDIODRIVER='dummy',
           PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
           OMP_NUM_THREADS='1', MKL_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
           PYGAME_HIDE_SUPPORT_PROMPT='1',
           HYPOTHESIS_STORAGE_DIRECTORY='/dev/null/none', MUJOCO_GL='disable')


def ensure_env():
    """Re-execute once if the interpreter was started without the fixed environment."""
    if os.environ.get('VERIF_BOOTED') != '1':
        env = dict(os.environ)
        env.update(ENV)
        env['VERIF_BOOTED'] = '1'
        os.execve(sys.executable, [sys.executable] + sys.argv, env)


def setup_path():
    sys.dont_write_bytecode = True
    for p in (REPO, os.path.join(VERIF, 'vendor'), VERIF):
        if p in sys.path:
            sys.path.remove(p)
        sys.path.insert(0, p)
    # make sure /repo wins for mushroom_rl
    sys.path.remove(REPO)
    sys.path.insert(0, REPO)


def import_target():
    import warnings
    warnings.filterwarnings('ignore')
    import mushroom_rl
    f = os.path.realpath(mushroom_rl.__file__)
    assert f.startswith(os.path.realpath(REPO) + os.sep), f
    return mushroom_rl
