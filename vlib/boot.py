"""Process bootstrap: vendored deps, /repo on sys.path, faithful in-process Pool, quiet stdout.

Must be imported before hadar.
"""
import glob
import os
import shutil
import sys
import tempfile
import zipfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"


def ensure_deps():
    deps = os.path.join(VERIF, ".deps")
    if not os.path.isdir(os.path.join(deps, "hypothesis")):
        try:
            tmp = tempfile.mkdtemp(dir=VERIF, prefix=".deps-tmp")
        except OSError:  # /verif not writable: private scratch copy
            tmp = tempfile.mkdtemp(prefix="verif-deps")
            deps = os.path.join(tmp, "d")
            os.mkdir(deps)
            tmp = os.path.join(tmp, "d")
        for w in sorted(glob.glob(os.path.join(VERIF, "vendor", "*.whl"))):
            with zipfile.ZipFile(w) as z:
                z.extractall(tmp)
        if tmp != deps:
            try:
                os.rename(tmp, deps)
            except OSError:  # lost a race: somebody else put it there
                shutil.rmtree(tmp, ignore_errors=True)
    if deps not in sys.path:
        sys.path.insert(0, deps)


_saved_stdout = None


def quiet_stdout():
    """GLOP prints on the C level stdout. Keep the real one for our own lines only."""
    global _saved_stdout
    if _saved_stdout is None:
        sys.stdout.flush()
        _saved_stdout = os.dup(1)
        null = os.open(os.devnull, os.O_WRONLY)
        os.dup2(null, 1)
        os.close(null)


def say(line):
    data = (line + "\n").encode()
    os.write(_saved_stdout if _saved_stdout is not None else 1, data)


FAST_SLEEP = False


def _install_sleep():
    """hadar's polling loops call time.sleep; checks may switch the waiting off (the calls still happen)."""
    import time

    if getattr(time.sleep, "_verif", False):
        return
    real = time.sleep

    def sleep(seconds):
        real(0 if FAST_SLEEP else seconds)

    sleep._verif = True
    time.sleep = sleep


def import_hadar():
    _install_sleep()
    if REPO not in sys.path or sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    from vlib import pool

    pool.install()
    import warnings

    warnings.simplefilter("ignore")
    import hadar

    warnings.simplefilter("ignore")
    if not os.path.abspath(hadar.__file__).startswith(REPO + "/"):
        raise RuntimeError("hadar imported from %s" % hadar.__file__)
    return hadar
