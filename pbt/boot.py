"""Make the code under test importable from /repo's working tree, in a scratch working directory."""
import atexit
import contextlib
import io
import logging
import os
import shutil
import sys
import tempfile
from .core import REPO

_scratch = None


def boot():
    global _scratch
    if _scratch:
        return _scratch
    _scratch = tempfile.mkdtemp(prefix="verif_pbt_")
    pid = os.getpid()
    home = os.getcwd()

    def cleanup():
        if os.getpid() == pid:
            os.chdir(home)
            shutil.rmtree(_scratch, ignore_errors=True)
    atexit.register(cleanup)
    work = os.path.join(_scratch, "cwd")
    shutil.copytree(os.path.join(REPO, "test"), work, ignore=shutil.ignore_patterns("*.py", "*.pyc", "__pycache__"))
    os.chdir(work)
    sys.dont_write_bytecode = True
    for p in ("/opt/venv/lib/python3.12/site-packages",):   # pycryptodomex for firmwares.py
        if os.path.isdir(p) and p not in sys.path:
            sys.path.append(p)
    sys.path.insert(0, REPO)
    logging.disable(logging.CRITICAL)
    import warnings
    warnings.simplefilter("ignore")
    with contextlib.redirect_stdout(io.StringIO()):
        import src.DLMS_SPODES  # noqa
        from src.DLMS_SPODES.cosem_interface_classes import collection  # noqa
    return _scratch
