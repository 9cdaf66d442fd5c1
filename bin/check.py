"""check.py PROPERTY: seeded simulation of one property (see DESIGN.md).  Run with /opt/venv/bin/python."""
import logging
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
repo = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, repo)
import warnings  # noqa: E402

warnings.simplefilter("ignore")
logging.disable(logging.CRITICAL)
sys.unraisablehook = lambda *a: None  # of coroutines thrown away with an aborted run
# third-party modules may come from their byte-code caches; starlette itself is always compiled from its source
import anyio, anyio._backends._asyncio, anyio._backends._trio, trio, httpx, itsdangerous, jinja2, multipart  # noqa: E401,E402,F401
import python_multipart  # noqa: E402,F401

sys.pycache_prefix = "/nonexistent/pycache"
import starlette  # noqa: E402

if not os.path.abspath(starlette.__file__).startswith(os.path.abspath(repo) + os.sep):
    print("starlette is not imported from", repo, "but from", starlette.__file__)
    sys.exit(2)

from sim import runner  # noqa: E402

if __name__ == "__main__":
    import shutil
    import tempfile

    for stream in (sys.stdout, sys.stderr):
        stream.reconfigure(errors="backslashreplace")
    own = None
    if "SIM_SCRATCH" not in os.environ:
        own = os.environ["SIM_SCRATCH"] = tempfile.mkdtemp(prefix="vsim.")
    try:
        rc = runner.main()
    except Exception:
        import traceback

        traceback.print_exc()
        rc = 2
    if own:
        shutil.rmtree(own, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)
